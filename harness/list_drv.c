/* Drives common/linked_list.c. Elements are embedded in a larger structure. */
#include "unit.h"
#include "linked_list.h"

#define MAXH 16
#define MAXE 64
struct item { long pad; struct linked_list link; int id; };
static struct linked_list head[MAXH];
static struct item item[MAXE];
static int nh, ne;

static void unit_start(int argc, char **argv) {
	nh = atoi(argv[0]); ne = atoi(argv[1]);
	(void)argc;
	for (int h = 0; h < nh; h++) linked_list_init(&head[h]);
	for (int e = 0; e < ne; e++) item[e].id = e + 1;
}

static int idof(struct linked_list *l) {
	for (int e = 0; e < ne; e++) if (l == &item[e].link) return item[e].id;
	return 99;
}

static void unit_op(int argc, char **argv) {
	int a = argc > 1 ? atoi(argv[1]) : 0, b = argc > 2 ? atoi(argv[2]) : 0;
	if (!strcmp(argv[0], "ins")) linked_list_insert(&head[a - 1], &item[b - 1].link);
	else if (!strcmp(argv[0], "app")) linked_list_insert(head[a - 1].prev, &item[b - 1].link);
	else if (!strcmp(argv[0], "after")) linked_list_insert(&item[a - 1].link, &item[b - 1].link);
	else if (!strcmp(argv[0], "del")) linked_list_remove(&item[a - 1].link);
	else if (!strcmp(argv[0], "init")) linked_list_init(&item[a - 1].link);
	else if (!strcmp(argv[0], "take")) linked_list_take(&head[a - 1], &head[b - 1]);
	else if (!strcmp(argv[0], "sweep")) {
		/* as poller.c does it */
		for (struct linked_list *e = head[a - 1].next; e != &head[a - 1]; e = e->next) {
			struct linked_list *x = e;
			if (idof(x) % 2 != b) { e = e->prev; linked_list_remove(x); }
		}
	}
	fprintf(out, "{\"f\":[");
	for (int h = 0; h < nh; h++) {
		fprintf(out, "%s[", h ? "," : "");
		int n = 0;
		for (struct linked_list *e = head[h].next; e && e != &head[h] && n <= ne; e = e->next) fprintf(out, "%s%d", n++ ? "," : "", idof(e));
		fprintf(out, "]");
	}
	fprintf(out, "],\"b\":[");
	for (int h = 0; h < nh; h++) {
		fprintf(out, "%s[", h ? "," : "");
		int n = 0;
		for (struct linked_list *e = head[h].prev; e && e != &head[h] && n <= ne; e = e->prev) fprintf(out, "%s%d", n++ ? "," : "", idof(e));
		fprintf(out, "]");
	}
	fprintf(out, "],\"e\":[");
	for (int h = 0; h < nh; h++) fprintf(out, "%s%d", h ? "," : "", linked_list_empty(&head[h]) ? 1 : 0);
	fprintf(out, "]}");
}
