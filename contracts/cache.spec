// what the cache of strings gives (proved slot by slot in escache.spec): a string nobody else holds
extern ESTR* pBat_EsCacheInit(ESTRCACHE* c)
requires !\oom
ensures \fresh(\result) && ES(\result) && \fresh(\result->str) && \len(\result->str) == 0
extern void pBat_EsCacheFree(ESTRCACHE* c, ESTR* e)
requires ES(e)
frees e, e->str
