/* Shim of common/debug.h: function tracing, parameter logging and leak audits dropped; return values kept */
#ifndef COMMON_DEBUG_H
#define COMMON_DEBUG_H

#include "common/assert.h"
#include "common/type/convert.h"
#include "common/type/stringStatic.h"

#define FUNCTION_AUDIT_IF(condition)
#define FUNCTION_AUDIT_CALLBACK()
#define FUNCTION_AUDIT_HELPER()
#define FUNCTION_AUDIT_STRUCT()

#define FUNCTION_LOG_BEGIN(logLevel)
#define FUNCTION_LOG_END()
#define FUNCTION_LOG_VOID(logLevel)
#define FUNCTION_LOG_PARAM(typeMacroPrefix, param)
#define FUNCTION_LOG_PARAM_P(typeMacroPrefix, param)
#define FUNCTION_LOG_PARAM_PP(typeMacroPrefix, param)
#define FUNCTION_LOG_LEVEL()                                        logLevelOff
#define FUNCTION_LOG_RETURN(typeMacroPrefix, ...)                   return __VA_ARGS__
#define FUNCTION_LOG_RETURN_P(typeMacroPrefix, ...)                 return __VA_ARGS__
#define FUNCTION_LOG_RETURN_PP(typeMacroPrefix, ...)                return __VA_ARGS__
#define FUNCTION_LOG_RETURN_CONST(typeMacroPrefix, ...)             return __VA_ARGS__
#define FUNCTION_LOG_RETURN_CONST_P(typeMacroPrefix, ...)           return __VA_ARGS__
#define FUNCTION_LOG_RETURN_CONST_PP(typeMacroPrefix, ...)          return __VA_ARGS__
#define FUNCTION_LOG_RETURN_STRUCT(...)                             return __VA_ARGS__
#define FUNCTION_LOG_RETURN_VOID()                                  return

#define FUNCTION_TEST_NO_RETURN()
#define FUNCTION_TEST_BEGIN()
#define FUNCTION_TEST_PARAM(typeMacroPrefix, param)
#define FUNCTION_TEST_PARAM_P(typeMacroPrefix, param)
#define FUNCTION_TEST_PARAM_PP(typeMacroPrefix, param)
#define FUNCTION_TEST_END()
#define FUNCTION_TEST_VOID()
#define FUNCTION_TEST_RETURN(typeMacroPrefix, ...)                  return __VA_ARGS__
#define FUNCTION_TEST_RETURN_P(typeMacroPrefix, ...)                return __VA_ARGS__
#define FUNCTION_TEST_RETURN_PP(typeMacroPrefix, ...)               return __VA_ARGS__
#define FUNCTION_TEST_RETURN_CONST(typeMacroPrefix, ...)            return __VA_ARGS__
#define FUNCTION_TEST_RETURN_CONST_P(typeMacroPrefix, ...)          return __VA_ARGS__
#define FUNCTION_TEST_RETURN_CONST_PP(typeMacroPrefix, ...)         return __VA_ARGS__
#define FUNCTION_TEST_RETURN_TYPE(type, ...)                        return __VA_ARGS__
#define FUNCTION_TEST_RETURN_TYPE_P(type, ...)                      return __VA_ARGS__
#define FUNCTION_TEST_RETURN_TYPE_PP(type, ...)                     return __VA_ARGS__
#define FUNCTION_TEST_RETURN_TYPE_CONST(type, ...)                  return __VA_ARGS__
#define FUNCTION_TEST_RETURN_TYPE_CONST_P(type, ...)                return __VA_ARGS__
#define FUNCTION_TEST_RETURN_TYPE_CONST_PP(type, ...)               return __VA_ARGS__
#define FUNCTION_TEST_RETURN_VOID()                                 return

typedef void (*ObjToLogFormat)(const void *object, StringStatic *debugLog);
extern size_t objToLog(const void *object, ObjToLogFormat formatFunc, char *buffer, size_t bufferSize);
extern size_t objNameToLog(const void *object, const char *objectName, char *buffer, size_t bufferSize);
extern size_t ptrToLog(const void *pointer, const char *pointerName, char *buffer, size_t bufferSize);
extern size_t typeToLog(const char *typeName, char *buffer, size_t bufferSize);

#endif
