/* Contract of strDup() (use with replace=strDup): a copy of the same size. The string invariant (size characters, none of them zero,
 * then a zero) is required of the argument; without the contract the verifier would measure the text again with strlen(). */
#ifdef REPLACE_strDup
String *
strDup(const String *const this)
{
    if (this == NULL)
        return NULL;

    for (size_t i = 0; i < strSize(this); i++)
        VERIF_LIMIT(strZ(this)[i] != 0, "string invariant");

    VERIF_LIMIT(strZ(this)[strSize(this)] == 0, "string invariant");
    return strNewZN(strZ(this), strSize(this));
}
#endif
