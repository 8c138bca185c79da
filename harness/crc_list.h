/* Every CRC variant of the public API (F: takes final_crc). */
#include "crc8_base.h"
#include "crc16_base.h"
#include "crc32_base.h"
#include "crc8.h"
#include "crc8_8h2f.h"
#include "crc8_cdma2000.h"
#include "crc8_darc.h"
#include "crc8_dvb_s2.h"
#include "crc8_ebu.h"
#include "crc8_icode.h"
#include "crc8_itu.h"
#include "crc8_maxim.h"
#include "crc8_rohc.h"
#include "crc8_sae_j1850.h"
#include "crc8_sae_j1850_zero.h"
#include "crc8_wcdma.h"
#include "crc16_a.h"
#include "crc16_arc.h"
#include "crc16_aug_ccit.h"
#include "crc16_buypass.h"
#include "crc16_ccit_false.h"
#include "crc16_ccit_zero.h"
#include "crc16_cdma2000.h"
#include "crc16_dds110.h"
#include "crc16_dect_r.h"
#include "crc16_dect_x.h"
#include "crc16_dnp.h"
#include "crc16_en_13757.h"
#include "crc16_genibus.h"
#include "crc16_kermit.h"
#include "crc16_maxim.h"
#include "crc16_mcrf4xx.h"
#include "crc16_modbus.h"
#include "crc16_riello.h"
#include "crc16_t10_dif.h"
#include "crc16_teledisk.h"
#include "crc16_tms37157.h"
#include "crc16_usb.h"
#include "crc16_x_25.h"
#include "crc32.h"
#include "crc32_bzip2.h"
#include "crc32_c.h"
#include "crc32_d.h"
#include "crc32_jamcrc.h"
#include "crc32_mpeg2.h"
#include "crc32_posix.h"
#include "crc32_q.h"
#include "crc32_xfer.h"
#define CRC_LIST \
    V8(Crc8) \
    V8F(Crc8_8h2f) \
    V8(Crc8_cdma2000) \
    V8F(Crc8_darc) \
    V8(Crc8_dvbS2) \
    V8F(Crc8_ebu) \
    V8(Crc8_icode) \
    V8F(Crc8_itu) \
    V8F(Crc8_maxim) \
    V8F(Crc8_rohc) \
    V8F(Crc8_saeJ1850) \
    V8(Crc8_saeJ1850Zero) \
    V8F(Crc8_wcdma) \
    V16F(Crc16_a) \
    V16F(Crc16_arc) \
    V16(Crc16_augCcit) \
    V16(Crc16_buypass) \
    V16(Crc16_ccitFalse) \
    V16(Crc16_ccitZero) \
    V16(Crc16_cdma2000) \
    V16(Crc16_dds110) \
    V16F(Crc16_dectR) \
    V16(Crc16_dectX) \
    V16F(Crc16_dnp) \
    V16F(Crc16_en13757) \
    V16F(Crc16_genibus) \
    V16F(Crc16_kermit) \
    V16F(Crc16_maxim) \
    V16F(Crc16_mcrf4xx) \
    V16F(Crc16_modbus) \
    V16F(Crc16_riello) \
    V16(Crc16_t10Dif) \
    V16(Crc16_teledisk) \
    V16F(Crc16_tms37157) \
    V16F(Crc16_usb) \
    V16F(Crc16_x25) \
    V32F(Crc32) \
    V32F(Crc32_bzip2) \
    V32F(Crc32_c) \
    V32F(Crc32_d) \
    V32F(Crc32_jamcrc) \
    V32(Crc32_mpeg2) \
    V32F(Crc32_posix) \
    V32(Crc32_q) \
    V32(Crc32_xfer)
