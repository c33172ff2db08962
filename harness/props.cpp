#include "props.h"
#include <cstring>
/* one flat list */
#include <vector>
static const Prop *flat_[64];
static bool build()
{
	const Prop *const *g[] = {PROPS_SEG, PROPS_UTF8, PROPS_CASE, PROPS_BIDI, PROPS_MISC, PROPS_COST, PROPS_DATA, PROPS_SIZE};
	size_t n = 0;
	for (auto l : g) for (size_t i = 0; l[i]; i++) flat_[n++] = l[i];
	return true;
}
const Prop *find_prop(const char *id)
{
	static bool b = build();
	(void)b;
	for (size_t i = 0; flat_[i]; i++) if (!strcmp(flat_[i]->id, id)) return flat_[i];
	return 0;
}
