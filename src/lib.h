// Declarations of the code under test and of the C shim around its inline helpers.
#pragma once
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "libtsm.h"
extern unsigned int tsm_verif_initial_cols, tsm_verif_initial_rows;
void tsm_verif_set_age(struct tsm_screen *con, tsm_age_t age);
#include "shim.h"
#ifdef __cplusplus
}
#endif
