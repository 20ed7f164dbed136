/* Contract of the configuration: option values are whatever the harness set; anything else is not modelled */
#include "config/config.h"

typedef struct VcfgValue
{
    ConfigOption option;
    unsigned int idx;
    bool test;                                                      // option has a value
    uint64_t u;
    const String *str;
    const void *ptr;
} VcfgValue;

#ifndef VCFG_MAX
#define VCFG_MAX                                                    24
#endif

static VcfgValue vcfgValue[VCFG_MAX]; static unsigned int vcfgTotal;
static unsigned int vcfgRepoTotal = 1, vcfgRepoDefault = 0;
static ConfigCommand vcfgCommand; static ConfigCommandRole vcfgRole;

static VcfgValue *
vcfgNew(const ConfigOption option, const unsigned int idx)
{
    vcfgValue[vcfgTotal] = (VcfgValue){.option = option, .idx = idx, .test = true};
    return &vcfgValue[vcfgTotal++];
}

static void vcfgU(const ConfigOption option, const unsigned int idx, const uint64_t u) {vcfgNew(option, idx)->u = u;}
static void vcfgStr(const ConfigOption option, const unsigned int idx, const String *const str) {VcfgValue *const v = vcfgNew(option, idx); v->str = str; v->test = str != NULL;}
static void vcfgPtr(const ConfigOption option, const unsigned int idx, const void *const ptr) {VcfgValue *const v = vcfgNew(option, idx); v->ptr = ptr; v->test = ptr != NULL;}
static void vcfgNone(const ConfigOption option, const unsigned int idx) {vcfgNew(option, idx)->test = false;}

static const VcfgValue *
vcfgGet(const ConfigOption option, const unsigned int idx)
{
    for (unsigned int i = 0; i < vcfgTotal; i++)
        if (vcfgValue[i].option == option && vcfgValue[i].idx == idx)
            return &vcfgValue[i];

    VERIF_LIMIT(false, "option not set in the harness");
    ASSUME(false);
    return &vcfgValue[0];
}

ConfigCommand cfgCommand(void) {return vcfgCommand;}
ConfigCommandRole cfgCommandRole(void) {return vcfgRole;}
const char *cfgCommandName(void) {return "command";}
const char *cfgOptionGroupName(const ConfigOptionGroup group, const unsigned int idx) {return "repo";}
unsigned int cfgOptionGroupIdxDefault(const ConfigOptionGroup group) {return vcfgRepoDefault;}
unsigned int cfgOptionGroupIdxToKey(const ConfigOptionGroup group, const unsigned int idx) {return idx + 1;}
unsigned int cfgOptionGroupIdxTotal(const ConfigOptionGroup group) {return vcfgRepoTotal;}
unsigned int cfgOptionIdxDefault(const ConfigOption option) {return 0;}
bool cfgOptionIdxBool(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->u != 0;}
int cfgOptionIdxInt(const ConfigOption option, const unsigned int idx) {return (int)vcfgGet(option, idx)->u;}
int64_t cfgOptionIdxInt64(const ConfigOption option, const unsigned int idx) {return (int64_t)vcfgGet(option, idx)->u;}
unsigned int cfgOptionIdxUInt(const ConfigOption option, const unsigned int idx) {return (unsigned int)vcfgGet(option, idx)->u;}
uint64_t cfgOptionIdxUInt64(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->u;}
StringId cfgOptionIdxStrId(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->u;}
unsigned int cfgOptionIdxSeq(const ConfigOption option, const unsigned int idx) {return (unsigned int)vcfgGet(option, idx)->u;}

const String *
cfgOptionIdxStr(const ConfigOption option, const unsigned int idx)
{
    const VcfgValue *const v = vcfgGet(option, idx);
    CHECK_OB("required option has a value", v->test);
    return v->str;
}

const String *cfgOptionIdxStrNull(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->str;}
const KeyValue *cfgOptionIdxKv(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->ptr;}
const KeyValue *cfgOptionIdxKvNull(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->ptr;}
const VariantList *cfgOptionIdxLst(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->ptr;}
static const StringPubConst vcfgDisplay = {.size = 7, .buffer = "display"};
const String *cfgOptionDisplay(const ConfigOption option) {return (const String *)&vcfgDisplay;}
const String *cfgOptionIdxDisplay(const ConfigOption option, const unsigned int idx) {return (const String *)&vcfgDisplay;}
const char *cfgOptionName(const ConfigOption option) {return "option";}
const char *cfgOptionIdxName(const ConfigOption option, const unsigned int idx) {return "option";}
bool cfgOptionIdxTest(const ConfigOption option, const unsigned int idx) {return vcfgGet(option, idx)->test;}
bool cfgOptionTest(const ConfigOption option) {return cfgOptionIdxTest(option, 0);}
bool cfgOptionValid(const ConfigOption option) {return true;}
