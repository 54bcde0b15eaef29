F_SRC=["radarcape/main.c","radarcape/fpga.c","radarcape/watchdog.c","radarcape/tb-misc.c","radarcape/tb-rshell.c","radarcape/rc-parser.c","trimble/trimble_recv.c","trimble/trimble_parser.c","util/serial_eth.c","util/cfgfile.c","util/port/mmap-posix.c","util/component.c","util/statistics.c","util/util.c","util/log_stdio.c","util/proc.c","util/net_common-posix.c","core/relay.c","core/login.c","core/gps.c","core/beast.c","core/filter.c","core/recv.c","core/tb.c","core/buffer.c","core/network.c"]
F_FLAGS=r'-DSTANDALONE -DINPUT_RADARCAPE_UART -DSYSCONFDIR=\"etc\" -DFWDIR=\"fw\" -Wl,--wrap=SERIAL_ETH_getSerial'
F_PRE=r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <sys/stat.h>
#include "radarcape/gpio.h"
#include "radarcape/rc-input.h"
#include "trimble/trimble_input.h"
#include "core/serial.h"
/* the real daemon with the hardware replaced */
static long clocks, touched; static uint64_t pinsSet[4];
static bool gpioUp(void);
struct Component GPIO_comp = { .description = "GPIO", .onConstruct = &gpioUp, .dependencies = { NULL } };
static bool gpioUp(void) { return true; }
static void touch(uint_fast32_t g) { ++touched; pinsSet[g >> 6] |= 1ull << (g & 63); }
void GPIO_setDirection(uint_fast32_t g, enum GPIO_DIRECTION d) { touch(g); }
void GPIO_set(uint_fast32_t g) { touch(g); if (g == 39) ++clocks; }
void GPIO_clear(uint_fast32_t g) { touch(g); }
uint_fast32_t GPIO_read(uint_fast32_t g) { return 1; }
enum SERIAL_RETURN __wrap_SERIAL_ETH_getSerial(uint32_t * s) { if (s) *s = 1; return SERIAL_RETURN_SUCCESS; }
static void lineOpened(void);
void RC_INPUT_register() {} void RC_INPUT_init() {} void RC_INPUT_disconnect() {} void RC_INPUT_connect() { lineOpened(); pause(); } size_t RC_INPUT_read(uint8_t * b, size_t n) { pause(); return 0; } size_t RC_INPUT_write(uint8_t * b, size_t n) { return n; }
void TRIMBLE_INPUT_register() {} void TRIMBLE_INPUT_init() {} void TRIMBLE_INPUT_disconnect() {} void TRIMBLE_INPUT_connect() { pause(); } size_t TRIMBLE_INPUT_read(uint8_t * b, size_t n) { pause(); return 0; } size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t n) { return n; }
static void files(int fw, const char * cfg)
{
	mkdir("etc", 0755); mkdir("fw", 0755); FILE * f = fopen("etc/openskyd.conf", "w"); fprintf(f, "[NETWORK]\nhost=127.0.0.1\nport=9\n%s", cfg); fclose(f);
	f = fopen("fw/openskyd.rbf", "w"); while (fw--) fputc(fw, f); fclose(f);
}
"""
seed("s43-order-fpga","C37",
 [("src/radarcape/main.c","#ifdef STANDALONE\n	COMP_register(&FPGA_comp);\n	COMP_register(&WD_comp);\n#endif\n	COMP_register(&TB_comp);\n	COMP_register(&RELAY_comp);\n	COMP_register(&RECV_comp);\n	COMP_register(&STAT_comp);","	COMP_register(&TB_comp);\n	COMP_register(&RELAY_comp);\n	COMP_register(&RECV_comp);\n	COMP_register(&STAT_comp);\n#ifdef STANDALONE\n	COMP_register(&FPGA_comp);\n	COMP_register(&WD_comp);\n#endif")],
 F_PRE+r"""
static void lineOpened(void) { printf("receiver opened after %ld clocks\n", clocks); fflush(stdout); _exit(clocks != 800); }
static void __attribute__((constructor)) start(void) { files(100, ""); }
""", "a receiver which talks before its FPGA is configured (cold start)", "the receive thread opens and sets up the line of the receiver while the FPGA is not yet configured",
 F_SRC, flags=F_FLAGS, timeout=30)

seed("s44-save-late","C37",
 [("src/radarcape/main.c","""	if (savefile) {
		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
			savefile);
		bool written = CFG_write(savefile);
		COMP_unregisterAll();
		CFG_unregisterAll();
		return written ? EXIT_SUCCESS : EXIT_FAILURE;
	}

""",""),("src/radarcape/main.c","""	if (!COMP_startAll()) {""","""	/* components may adjust their settings upon initialization */
	if (savefile) {
		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
			savefile);
		bool written = CFG_write(savefile);
		COMP_destructAll();
		COMP_unregisterAll();
		CFG_unregisterAll();
		return written ? EXIT_SUCCESS : EXIT_FAILURE;
	}

	if (!COMP_startAll()) {""")],
 F_PRE+r"""
static void lineOpened(void) { _exit(3); }
static void end(void) { printf("%ld accesses to the hardware\n", touched); fflush(stdout); if (touched) _exit(1); }
static void __attribute__((constructor)) start(void) { files(100, ""); atexit(&end); }
""", "--save is used while another daemon serves the cape", "saving the configuration initialises the hardware: pins are set and the FPGA of the running system is disturbed",
 F_SRC, flags=F_FLAGS, run="--save out.conf", timeout=30)

seed("s45-bb-pins","C37",
 [("src/radarcape/fpga.c","	GPIO_setDirection(fpga->confd, GPIO_DIRECTION_IN);\n	GPIO_setDirection(fpga->dclk, GPIO_DIRECTION_OUT);\n	GPIO_setDirection(fpga->nstat, GPIO_DIRECTION_IN);","	/* inputs of either board */\n	size_t i;\n	for (i = 0; i < sizeof pins / sizeof *pins; ++i) {\n		GPIO_setDirection(pins[i].confd, GPIO_DIRECTION_IN);\n		GPIO_setDirection(pins[i].nstat, GPIO_DIRECTION_IN);\n	}\n	GPIO_setDirection(fpga->dclk, GPIO_DIRECTION_OUT);")],
 F_PRE+r"""
static void lineOpened(void) { int other = 0, p; for (p = 0; p < 128; ++p) if ((pinsSet[p >> 6] >> (p & 63) & 1) && p != 38 && p != 39 && p != 34 && p != 44 && p != 37 && p != 60) { printf("pin %d touched\n", p); ++other; } fflush(stdout); _exit(other != 0); }
static void __attribute__((constructor)) start(void) { files(50, ""); }
""", "pins of the other board type are used for something else", "pins which do not belong to the board are switched to inputs",
 F_SRC, flags=F_FLAGS, timeout=30)
