/* The real compression helper over contracts of the four algorithms: a compression filter adds, a decompression filter removes, the
 * transformation of its algorithm (vlib/vio.c) */
#include "common/compress/helper.c"

static IoFilter *
vcompressNew(const CompressType type, const StringId filter, const int level, const bool raw)
{
    IoFilter *const this = vioFilterNew(vioFilterCompress, filter, type + (raw ? 32 : 0));
    this->level = level;
    this->raw = raw;
    return this;
}

IoFilter *bz2CompressNew(const int level, const bool raw) {return vcompressNew(compressTypeBz2, BZ2_COMPRESS_FILTER_TYPE, level, raw);}
IoFilter *gzCompressNew(const int level, const bool raw) {return vcompressNew(compressTypeGz, GZ_COMPRESS_FILTER_TYPE, level, raw);}
IoFilter *lz4CompressNew(const int level, const bool raw) {return vcompressNew(compressTypeLz4, LZ4_COMPRESS_FILTER_TYPE, level, raw);}

static IoFilter *
vdecompressNew(const CompressType type, const StringId filter, const bool raw)
{
    return vioFilterNew(vioFilterDecompress, filter, type + (raw ? 32 : 0));
}

IoFilter *bz2DecompressNew(const bool raw) {return vdecompressNew(compressTypeBz2, BZ2_DECOMPRESS_FILTER_TYPE, raw);}
IoFilter *gzDecompressNew(const bool raw) {return vdecompressNew(compressTypeGz, GZ_DECOMPRESS_FILTER_TYPE, raw);}
IoFilter *lz4DecompressNew(const bool raw) {return vdecompressNew(compressTypeLz4, LZ4_DECOMPRESS_FILTER_TYPE, raw);}

#ifdef HAVE_LIBZST
IoFilter *zstCompressNew(const int level, const bool raw) {return vcompressNew(compressTypeZst, ZST_COMPRESS_FILTER_TYPE, level, raw);}
IoFilter *zstDecompressNew(const bool raw) {return vdecompressNew(compressTypeZst, ZST_DECOMPRESS_FILTER_TYPE, raw);}
#endif
