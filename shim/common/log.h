/* Shim of common/log.h: log output dropped (message arguments are not evaluated); warnings and errors are counted */
#ifndef COMMON_LOG_H
#define COMMON_LOG_H

#include <limits.h>
#include <stdbool.h>
#include "common/logLevel.h"
#include "common/debug.h"

#define LOG_BUFFER_SIZE                                             ((size_t)(32 * 1024))

extern unsigned int verif_log_warn;
extern unsigned int verif_log_error;

extern bool logAny(LogLevel logLevel);
extern void logInit(
    LogLevel logLevelStdOutParam, LogLevel logLevelStdErrParam, LogLevel logLevelFileParam, bool logTimestampParam,
    unsigned int processId, unsigned int logProcessMax, bool dryRun);
extern void logClose(void);
extern bool logFileSet(const char *logFile);
extern LogLevel logLevelEnum(unsigned int logLevelSeq);
extern const char *logLevelStr(LogLevel logLevel);

#define VERIF_LOG_NONE()                                            do { } while (0)
#define IF_LOG_ANY(logLevel)                                        if (0)
#define LOG_INTERNAL(...)                                           VERIF_LOG_NONE()
#define LOG_INTERNAL_FMT(...)                                       VERIF_LOG_NONE()
#define LOG_PID(...)                                                VERIF_LOG_NONE()
#define LOG_PID_FMT(...)                                            VERIF_LOG_NONE()
#define LOG(...)                                                    VERIF_LOG_NONE()
#define LOG_FMT(...)                                                VERIF_LOG_NONE()
#define LOG_ASSERT_PID(...)                                         VERIF_LOG_NONE()
#define LOG_ERROR_PID(...)                                          do { verif_log_error++; } while (0)
#define LOG_WARN_PID(...)                                           do { verif_log_warn++; } while (0)
#define LOG_INFO_PID(...)                                           VERIF_LOG_NONE()
#define LOG_DETAIL_PID(...)                                         VERIF_LOG_NONE()
#define LOG_DEBUG_PID(...)                                          VERIF_LOG_NONE()
#define LOG_TRACE_PID(...)                                          VERIF_LOG_NONE()
#define LOG_ASSERT_PID_FMT(...)                                     VERIF_LOG_NONE()
#define LOG_ERROR_PID_FMT(...)                                      do { verif_log_error++; } while (0)
#define LOG_WARN_PID_FMT(...)                                       do { verif_log_warn++; } while (0)
#define LOG_INFO_PID_FMT(...)                                       VERIF_LOG_NONE()
#define LOG_DETAIL_PID_FMT(...)                                     VERIF_LOG_NONE()
#define LOG_DEBUG_PID_FMT(...)                                      VERIF_LOG_NONE()
#define LOG_TRACE_PID_FMT(...)                                      VERIF_LOG_NONE()
#define LOG_ASSERT(...)                                             VERIF_LOG_NONE()
#define LOG_ERROR(...)                                              do { verif_log_error++; } while (0)
#define LOG_WARN(...)                                               do { verif_log_warn++; } while (0)
#define LOG_INFO(...)                                               VERIF_LOG_NONE()
#define LOG_DETAIL(...)                                             VERIF_LOG_NONE()
#define LOG_DEBUG(...)                                              VERIF_LOG_NONE()
#define LOG_TRACE(...)                                              VERIF_LOG_NONE()
#define LOG_ASSERT_FMT(...)                                         VERIF_LOG_NONE()
#define LOG_ERROR_FMT(...)                                          do { verif_log_error++; } while (0)
#define LOG_WARN_FMT(...)                                           do { verif_log_warn++; } while (0)
#define LOG_INFO_FMT(...)                                           VERIF_LOG_NONE()
#define LOG_DETAIL_FMT(...)                                         VERIF_LOG_NONE()
#define LOG_DEBUG_FMT(...)                                          VERIF_LOG_NONE()
#define LOG_TRACE_FMT(...)                                          VERIF_LOG_NONE()

#endif
