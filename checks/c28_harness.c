/* Runs a history of list, table and sort operations given on standard input
 * and prints what can be observed after each. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "list.h"
#include "table.h"
#include "sort.h"

BEGIN_ITEM(It)
    long id;
END_ITEM(It);
BEGIN_LIST_OF(It)
    long guard;
END_LIST(Itlist);

BEGIN_ENTRY(En)
    long id;
END_ENTRY(En);
BEGIN_TABLE_OF(En, Enlist)
    long guard;
END_TABLE(Entable);

#define LISTS 3
#define ITEMS 4096
static Itlist lists[LISTS];
static It *item[ITEMS];
static Entable tables[2];
static En *entry[ITEMS];

void initialize();      /* of util.c, not used */

static void show_list(l)
Itlist *l;
{
    It *i, *last = NULL;
    long n = 0;
    printf("%ld:", l->count);
    for (i = l->first; i && n < 2 * ITEMS; i = i->next, n++) {
        printf(" %ld", i->id);
        last = i;
    }
    printf(" /");
    n = 0;
    for (i = l->last; i && n < 2 * ITEMS; i = i->prev, n++)
        printf(" %ld", i->id);
    printf("%s\n", last == l->last && l->guard == 77 ? "" : " broken");
}

static void processed_item(i)
It *i;
{
    printf("%ld ", i->id);
    item[i->id] = NULL;
    free(i);
}

static void processed_entry(e)
En *e;
{
    printf("%ld ", e->id);
    entry[e->id] = NULL;
    free(e->key);
    free(e);
}

static char *read_key(void)
{
    static char hex[2100];
    char *key;
    size_t i, n;
    unsigned x;
    if (scanf("%2050s", hex) != 1)
        exit(3);
    n = strlen(hex) / 2;
    key = malloc(n + 1);
    for (i = 0; i < n; i++) {
        sscanf(&hex[2 * i], "%2x", &x);
        key[i] = (char) x;
    }
    key[n] = 0;
    return key;
}

/* -- sorting */
typedef struct { long id, a, b; } El;
static El *els;
static long nels, compared;
static int how;

static int compare(x, y)
El *x, *y;
{
    long d;
    compared++;
    if (x < els || x >= els + nels || y < els || y >= els + nels) {
        printf("compares foreign elements\n");
        exit(0);
    }
    switch (how) {
        case 0: d = x->a - y->a; break;
        case 1: d = y->a - x->a; break;
        case 2: d = x->a != y->a ? x->a - y->a : y->b - x->b; break;
        case 3: d = x->a % 3 - y->a % 3; break;
        case 4: d = 0; break;
        default: d = (x->a > y->a) - (x->a < y->a); d *= 2147483647; break;
    }
    return (int) d;
}

static void do_sort(void)
{
    long i, sentinel_a = 0, sentinel_b = 0;
    void **array;
    if (scanf("%d %ld", &how, &nels) != 2)
        exit(3);
    els = malloc((nels + 1) * sizeof(El));
    array = malloc((nels + 2) * sizeof(void *));
    array[0] = &sentinel_a;
    array[nels + 1] = &sentinel_b;
    for (i = 0; i < nels; i++) {
        els[i].id = i;
        if (scanf("%ld %ld", &els[i].a, &els[i].b) != 2)
            exit(3);
        array[i + 1] = &els[i];
    }
    compared = 0;
    sort(nels, array + 1, compare);
    printf("sorted %s:", array[0] == &sentinel_a && array[nels + 1] == &sentinel_b ?
           "ok" : "beyond");
    for (i = 1; i <= nels; i++) {
        El *e = array[i];
        printf(" %ld", e >= els && e < els + nels ? e->id : -1L);
    }
    printf("\n");
    free(els);
    free(array);
}

int main(void)
{
    char op[8];
    long a, b, c, i;
    char *key;
    En *e;
    static char stdout_buffer[1 << 16];
    setvbuf(stdout, stdout_buffer, _IOFBF, sizeof stdout_buffer);
    for (i = 0; i < LISTS; i++) {
        lists[i].guard = 77;
        if (i)
            list_initialize(&lists[i]);     /* the first one is static */
    }
    tables[0].guard = tables[1].guard = 77;
    memset(tables[1].list, 0x5a, sizeof tables[1].list);
    tables[1].array = (void *) &op;
    table_initialize(&tables[1]);
    while (scanf("%7s", op) == 1) {
        if (op[0] == 'S') {
            do_sort();
            continue;
        }
        if (op[0] == 'T') {
            if (scanf("%ld", &a) != 1)
                exit(3);
            switch (op[1]) {
                case 'i':
                    scanf("%ld", &b);
                    entry[b] = calloc(1, sizeof(En));
                    entry[b]->id = b;
                    entry[b]->key = read_key();
                    table_insert(&tables[a], entry[b]);
                    printf("%ld\n", tables[a].count);
                    break;
                case 'r':
                    scanf("%ld", &b);
                    table_remove(&tables[a], entry[b]);
                    free(entry[b]->key);
                    free(entry[b]);
                    entry[b] = NULL;
                    printf("%ld\n", tables[a].count);
                    break;
                case 'l':
                    key = read_key();
                    e = table_lookup(&tables[a], key);
                    printf("%ld %s\n", e ? e->id : -1L,
                           tables[a].guard == 77 ? "" : "broken");
                    free(key);
                    break;
                case 'a':
                    table_in_array(&tables[a]);
                    printf("%ld:", tables[a].count);
                    for (i = 0; i < tables[a].count; i++)
                        printf(" %ld", tables[a].array[i]->id);
                    printf("\n");
                    break;
                case 'e':
                    table_empty(&tables[a], processed_entry);
                    printf("/ %ld\n", tables[a].count);
                    break;
            }
            continue;
        }
        if (scanf("%ld", &a) != 1)
            exit(3);
        switch (op[1]) {
            case 'f': case 'l':
                scanf("%ld", &b);
                item[b] = calloc(1, sizeof(It));
                item[b]->id = b;
                if (op[1] == 'f')
                    list_insert_first(&lists[a], item[b]);
                else
                    list_insert_last(&lists[a], item[b]);
                break;
            case 'b': case 'n':
                scanf("%ld %ld", &b, &c);
                item[b] = calloc(1, sizeof(It));
                item[b]->id = b;
                if (op[1] == 'b')
                    list_insert_before(&lists[a], item[b], item[c]);
                else
                    list_insert_after(&lists[a], item[c], item[b]);
                break;
            case 'r':
                scanf("%ld", &b);
                list_remove(&lists[a], item[b]);
                free(item[b]);
                item[b] = NULL;
                break;
            case 'm':       /* move an item to the end of another list */
                scanf("%ld %ld", &b, &c);
                list_remove(&lists[a], item[b]);
                list_insert_last(&lists[c], item[b]);
                break;
            case 'a':
                list_in_array(&lists[a]);
                printf("array:");
                for (i = 0; i < lists[a].count; i++)
                    printf(" %ld", lists[a].array[i]->id);
                printf("\n");
                break;
            case 'e':
                list_empty(&lists[a], processed_item);
                printf("/\n");
                break;
        }
        show_list(&lists[a]);
    }
    return 0;
}
