// verify of one repository file: valid only when the data it decodes to has the recorded checksum and size
//@property C05
//@src src/command/verify/file.c
//@harness h_plain unwind=60 kind=bounded funcs=verifyFile
//@bound file of three bytes with any content; any expected checksum and size; every failure
//@harness h_bundle unwind=60 kind=bounded funcs=verifyFile def=BUNDLE
//@bound as above, the file is one byte inside a bundle of three
//@harness h_gzAes unwind=60 kind=bounded funcs=verifyFile def=GZ,AES
//@bound as h_plain, compressed and encrypted
//@harness h_aesBundle unwind=60 kind=bounded funcs=verifyFile def=AES,BUNDLE
//@bound as h_bundle, encrypted
//@harness h_gz unwind=60 kind=bounded funcs=verifyFile def=GZ
//@bound as h_plain, compressed
//@trust storage, IO and filters by contract (vlib/vio.c): any operation may fail, decoding with the wrong key or algorithm fails
//@creplace strResize
//@cdef VLIST_MAX=6 VIO_BYTE=3 VIO_READ=4
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.c"
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/encode.c"
#include "common/type/variant.c"
#include "vlib/vio.c"
#include "vlib/vcfg.c"
#include "vlib/vcompress.c"
#include "command/verify/file.c"

static struct CipherSpecTest {CipherSpecPub pub;} gSpec;
static VioData gContent;                                            // what is stored
static VioData gPlain;                                              // what the requested part of it decodes to
static bool gMissing, gOpened, gDamaged;

const Storage *storageRepo(void) {return storageRepoIdx(0);}

static bool
vioOpen(StorageRead *const file, VioData *const data)
{
    CHECK_OB("file is read from the repository under its name", file->storage->id == vioRepo && strEqZ(file->pub.name, "backup/file"));
    CHECK_OB("one read", !gOpened);
    gOpened = true;
    *data = gContent;
    return !gMissing;
}

static void vioWriteOpen(StorageWrite *const file) {CHECK_OB("nothing is written", false);}
static void vioWritten(StorageWrite *const file, const VioData *const data) {CHECK_OB("nothing is written", false);}

static void
verify(void)
{
    static uint8_t key[1] = {3};
    static BufferPub pass = {.used = 1, .sizeAlloc = 1, .buffer = key};
    static uint8_t expect[HASH_TYPE_SHA1_SIZE];
    static BufferPub checksum = {.used = sizeof(expect), .sizeAlloc = sizeof(expect), .buffer = expect};
    static const StringPubConst name = {.size = sizeof("backup/file") - 1, .buffer = "backup/file"};
    CompressType compressType = compressTypeNone;

    gContent = (VioData){.size = 3, .byte = {IN_U8("b0"), IN_U8("b1"), IN_U8("b2")}};
    gSpec.pub.type = cipherTypeNone;
    verif_fault_enabled = IN_BOOL("faulty");
    gMissing = IN_BOOL("missing");

#ifdef GZ
    compressType = compressTypeGz;
    gContent.tag[gContent.tagTotal++] = (VioTag){.kind = vioCompress, .param = compressTypeGz};
#endif
#ifdef AES
    gSpec.pub.type = cipherTypeAes256Cbc;
    gSpec.pub.pass = (const Buffer *)&pass;
    gContent.tag[gContent.tagTotal++] = (VioTag){.kind = vioEncrypt, .param = 3};
#endif
    gPlain = gContent;
    gPlain.tagTotal = 0;

    if (gContent.tagTotal > 0 && IN_BOOL("damaged"))
    {
        gContent.tag[0].param = 7;
        gDamaged = true;
    }

    for (unsigned int i = 0; i < sizeof(expect); i++)
        expect[i] = IN_U8("expect");

    const uint64_t size = IN_U64("size");

#ifdef BUNDLE
    const uint64_t offset = 1;
    const Variant *const limit = VARUINT64(1);
    gPlain.size = 1;
    gPlain.byte[0] = gPlain.byte[1];
#else
    const uint64_t offset = 0;
    const Variant *const limit = NULL;
#endif

    const bool checksumSame = bufEq(vioDataHash(&gPlain, HASH_TYPE_SHA1_SIZE), (const Buffer *)&checksum);
    const bool sizeSame = size == gPlain.size;

    COVER("called");

    TRY_BEGIN()
    {
        const VerifyResult result = verifyFile(
            (const String *)&name, offset, limit, compressType, (const Buffer *)&checksum, size, (const CipherSpec *)&gSpec);

        CHECK_OB("missing exactly when missing", (result == verifyFileMissing) == gMissing);
        CHECK_OB("data that cannot be decoded is never valid", gMissing || !gDamaged);
        CHECK_OB("valid exactly when content and size are as recorded", (result == verifyOk) == (!gMissing && checksumSame && sizeSame));
        CHECK_OB("other content is reported", (result == verifyChecksumMismatch) == (!gMissing && !checksumSame));

        if (result == verifyOk)
            COVER("valid");
        if (result == verifyChecksumMismatch)
            COVER("checksum");
        if (result == verifySizeInvalid)
            COVER("size");
        if (result == verifyFileMissing)
            COVER("missing");
    }
    CATCH_FATAL()
    {
        CHECK_OB("error only when the file cannot be read", verif_fault_enabled || gDamaged);
        COVER("failed");
    }
    TRY_END();
}

void h_plain(void) {verify();}
void h_bundle(void) {verify();}
void h_gzAes(void) {verify();}
void h_aesBundle(void) {verify();}
void h_gz(void) {verify();}
