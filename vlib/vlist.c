/* List model (contract of common/type/list.c): a list is its sequence of items. Each item is an object of its own, which keeps the
 * verifier's view of memory typed; the real list.c is verified on its own (unit list). Sort is a stable insertion sort: callers may
 * not depend on the order of equal items, and none of the verified callers has equal items that differ. */
#include "common/type/list.h"

#ifndef VLIST_MAX
#define VLIST_MAX                                                   8
#endif

// Item types of the unit, e.g. VLIST_TYPE(Struct1) VLIST_TYPE(Struct2): gives the verifier typed list items
#ifndef VLIST_TYPES
#define VLIST_TYPES
#endif

struct List
{
    ListPub pub;
    SortOrder sortOrder;
    ListComparator *comparator;
    void *cell[VLIST_MAX];
    unsigned int type;                                              // Which type of item (0 when known by size only)
};

// (a unit whose item types are declared later defines VLIST_LATE and includes vlib/vlistItem.c after them)
#ifdef VLIST_LATE
static void *verif_lstItem(const void *src, size_t size, unsigned int type);
#else
#include "vlib/vlistItem.c"
#endif

static unsigned int verif_lstType;

List *
lstNew(const size_t itemSize, const ListParam param)
{
    List *const this = memNew(sizeof(List));
    this->pub.listSize = 0;
    this->pub.itemSize = itemSize;
    this->pub.list = NULL;
    this->sortOrder = param.sortOrder;
    this->comparator = param.comparator;
    this->type = verif_lstType;
    verif_lstType = 0;
    return this;
}

#ifdef VLIST_NAMED
// The type of the items as written where the list is created, for units where types of the same size differ
static unsigned int verif_lstTypeFind(const char *name);
#undef lstNewP
#define lstNewP(itemSize, ...)                                                                                                     \
    (verif_lstType = verif_lstTypeFind(#itemSize), lstNew(itemSize, (ListParam){VAR_PARAM_INIT, __VA_ARGS__}))
#endif

List *lstClear(List *const this) {this->pub.listSize = 0; return this;}

int lstComparatorStr(const void *const i1, const void *const i2) {return strCmp(*(const String *const *)i1, *(const String *const *)i2);}

int
lstComparatorInt(const void *const i1, const void *const i2)
{
    return LST_COMPARATOR_CMP(*(const int *)i1, *(const int *)i2);
}

int
lstComparatorUInt(const void *const i1, const void *const i2)
{
    return LST_COMPARATOR_CMP(*(const unsigned int *)i1, *(const unsigned int *)i2);
}

int lstComparatorZ(const void *const i1, const void *const i2) {return strcmp(*(const char *const *)i1, *(const char *const *)i2);}

void *
lstGet(const List *const this, const unsigned int listIdx)
{
    if (listIdx >= lstSize(this))
        THROW(AssertError, "range");

    if (this->pub.list != NULL)
        return this->pub.list + listIdx * this->pub.itemSize;

    return this->cell[listIdx];
}

void *
lstGetLast(const List *const this)
{
    if (lstSize(this) == 0)
        THROW(AssertError, "empty");

    return lstGet(this, lstSize(this) - 1);
}

unsigned int
lstFindIdx(const List *const this, const void *const item)
{
    for (unsigned int i = 0; i < lstSize(this) && (this->pub.list != NULL || i < VLIST_MAX); i++)
        if (this->comparator(item, lstGet(this, i)) == 0)
            return i;

    return LIST_NOT_FOUND;
}

void *
lstFind(const List *const this, const void *const item)
{
    for (unsigned int i = 0; i < lstSize(this) && (this->pub.list != NULL || i < VLIST_MAX); i++)
        if (this->comparator(item, lstGet(this, i)) == 0)
            return lstGet(this, i);

    return NULL;
}

const void *
lstFindDefault(const List *const this, const void *const item, const void *const itemDefault)
{
    const void *const result = lstFind(this, item);
    return result == NULL ? itemDefault : result;
}

unsigned int
lstIdx(const List *const this, const void *const item)
{
    unsigned int i = 0;

    while (i < lstSize(this) && lstGet(this, i) != item)
        i++;

    CHECK_OB("list item pointer is in the list", i < lstSize(this));
    return i;
}

void *
lstInsert(List *const this, const unsigned int listIdx, const void *const item)
{
    CHECK_OB("list insert position in range", listIdx <= lstSize(this));
    VERIF_LIMIT(this->pub.listSize < VLIST_MAX, "list model capacity");
    ASSUME(this->pub.listSize < VLIST_MAX);

    if (listIdx < this->pub.listSize)
    {
        for (unsigned int i = VLIST_MAX - 1; i > 0; i--)
            if (i <= this->pub.listSize && i > listIdx)
                this->cell[i] = this->cell[i - 1];
    }

    void *const cell = verif_lstItem(item, this->pub.itemSize, this->type);
    this->cell[listIdx] = cell;
    this->pub.listSize++;
    this->sortOrder = sortOrderNone;

    return cell;
}

List *
lstRemoveIdx(List *const this, const unsigned int listIdx)
{
    CHECK_OB("list remove position in range", listIdx < lstSize(this));
    ASSUME(listIdx < lstSize(this));

    this->pub.listSize--;

    for (unsigned int i = 0; i < VLIST_MAX - 1; i++)
        if (i >= listIdx && i < this->pub.listSize)
            this->cell[i] = this->cell[i + 1];

    return this;
}

bool
lstRemove(List *const this, const void *const item)
{
    const unsigned int i = lstFindIdx(this, item);

    if (i == LIST_NOT_FOUND)
        return false;

    lstRemoveIdx(this, i);
    return true;
}

List *
lstRemoveLast(List *const this)
{
    if (lstSize(this) == 0)
        THROW(AssertError, "empty");

    return lstRemoveIdx(this, lstSize(this) - 1);
}

List *
lstSort(List *const this, const SortOrder sortOrder)
{
    if (sortOrder != sortOrderNone)
    {
        for (unsigned int i = 1; i < this->pub.listSize; i++)
        {
            for (unsigned int j = i; j > 0; j--)
            {
                const int cmp = this->comparator(this->cell[j - 1], this->cell[j]);

                if (sortOrder == sortOrderAsc ? cmp <= 0 : cmp >= 0)
                    break;

                void *const t = this->cell[j - 1];
                this->cell[j - 1] = this->cell[j];
                this->cell[j] = t;
            }
        }
    }

    this->sortOrder = sortOrder;
    return this;
}

List *
lstComparatorSet(List *const this, ListComparator *const comparator)
{
    this->comparator = comparator;
    this->sortOrder = sortOrderNone;
    return this;
}

void lstToLog(const List *const this, StringStatic *const debugLog) {(void)this; (void)debugLog;}
