/* Logging has no effect on behaviour: empty bodies instead of eas_report.c. */
#include "eas_types.h"
#include "eas_report.h"
#undef EAS_ReportEx
void EAS_ReportEx(int severity, unsigned long hashCode, int serialNum, ...) { (void)severity; (void)hashCode; (void)serialNum; }
void EAS_Report(int severity, const char *fmt, ...) { (void)severity; (void)fmt; }
void EAS_ReportX(int severity, const char *fmt, ...) { (void)severity; (void)fmt; }
void EAS_SetDebugLevel(int severity) { (void)severity; }
void EAS_SetDebugFile(void *file, int flush) { (void)file; (void)flush; }
