// Stand-in for C2A: the two command registration functions record what they are given (defined by the driver).
#pragma once
#include <stdint.h>
typedef uint16_t CMD_CODE;
#define CSP_MAX_LEN 256
enum { TLCD_ID_FROM_GS = 5 };
void CCP_register_rtc(CMD_CODE cmd_id, const uint8_t* param, uint16_t len);
void CCP_register_tlc(uint32_t ti, int tlcd_id, CMD_CODE cmd_id, const uint8_t* param, uint16_t len);
