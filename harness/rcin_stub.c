#include <stdlib.h>
#include <stdint.h>
#include "radarcape/rc-input.h"
void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_disconnect() {}
void RC_INPUT_connect() {}
size_t RC_INPUT_read(uint8_t * b, size_t n) { return 0; }
size_t RC_INPUT_write(uint8_t * b, size_t n) { return n; }
