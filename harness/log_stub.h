#ifndef LOG_STUB_H
#define LOG_STUB_H
#ifdef __cplusplus
extern "C" {
#endif
extern void (*log_stub_hook)(int level, const char * prefix, const char * msg);
extern int log_stub_trace;
unsigned long log_stub_count(int level);
#ifdef __cplusplus
}
#endif
#endif
