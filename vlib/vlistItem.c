#ifdef VLIST_NAMED
static unsigned int
verif_lstTypeFind(const char *const name)
{
    unsigned int n = 0;
    #define VLIST_TYPE(type) n++; if (name[7] == (#type)[0] && name[11] == (#type)[4] && strcmp(name, "sizeof(" #type ")") == 0) return n;
    VLIST_TYPES
    #undef VLIST_TYPE
    return 0;
}
#endif

/* Copy of a list item as an object of its type (vlib/vlist.c) */
static void *
verif_lstItem(const void *const src, const size_t size, const unsigned int type)
{
    unsigned int n = 0;
    #define VLIST_TYPE(type_)                                                                                                       \
        n++;                                                                                                                       \
        if (type == n || (type == 0 && size == sizeof(type_)))                                                                     \
        {                                                                                                                          \
            type_ *const t = memNew(sizeof(type_));                                                                                \
            *t = *(const type_ *)src;                                                                                              \
            return t;                                                                                                              \
        }
    VLIST_TYPES
    VLIST_TYPE(const void *)
    VLIST_TYPE(uint32_t)
    VLIST_TYPE(uint8_t)

    void *const result = memNew(size);
    memcpy(result, src, size);
    return result;
}
