/* included per list kind: K suffix, DBL, CNT */
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
#define LT struct CAT(LIST_List, K)
#define FN(x) CAT(CAT(x, _), K)
struct CAT(Item, K) { int id; char pad[3]; LN link; char pad2; LN other; };
#define IT struct CAT(Item, K)
static LT FN(lists)[3];
static int FN(tainted)[3]; /* lazily cut: count not to be trusted by white-box, but must be by length() */
static IT * FN(items);
static int FN(seq)[3][NIT], FN(len)[3];
static int FN(pool)[NIT], FN(npool);

static void FN(check)(int k, const char * op, int lenToo)
{
	LT * l = &FN(lists)[k];
	int n = FN(len)[k], * s = FN(seq)[k], i = 0;
	LN * p;
	if (!!LIST_empty(l) != (n == 0)) vf_fail("empty", "after %s: empty() is %d with %d elements", op, !!LIST_empty(l), n);
	for (p = LIST_begin(l); p != LIST_end(l); p = LIST_next(p), ++i) {
		if (i >= n) vf_fail("too-long", "after %s: more than the expected %d elements", op, n);
		IT * it = LIST_item(p, IT, link);
		if (it != &FN(items)[s[i]]) vf_fail("order", "after %s: element %d is %d, expected %d", op, i, (int)(it - FN(items)), s[i]);
		if (it->id != s[i]) vf_fail("content", "after %s: content damaged", op);
		if (LIST_itemSafe(l, p, IT, link) != it) vf_fail("item", "itemSafe");
	}
	if (i != n) vf_fail("too-short", "after %s: %d elements, expected %d", op, i, n);
	if (LIST_itemSafe(l, LIST_end(l), IT, link) != NULL) vf_fail("item", "itemSafe of the end is not NULL");
#if DBL
	i = n;
	for (p = LIST_beginRev(l); p != LIST_end(l); p = LIST_prev(p)) {
		if (--i < 0) vf_fail("too-long", "after %s: reverse iteration finds more than %d elements", op, n);
		if (LIST_item(p, IT, link) != &FN(items)[s[i]]) vf_fail("order-rev", "after %s: reverse order broken at %d", op, i);
	}
	if (i != 0) vf_fail("too-short", "after %s: reverse iteration misses %d elements", op, i);
	if (LIST_next(LIST_end(l)) != LIST_begin(l) || LIST_prev(LIST_end(l)) != LIST_beginRev(l)) vf_fail("anchor", "after %s: anchor links", op);
#endif
#if CNT
	if (lenToo && LIST_length(l) != (size_t)n) vf_fail("length", "after %s: length() is %zu, expected %d", op, (size_t)LIST_length(l), n);
#endif
}
static void FN(run)(void)
{
	int i, k, nops = vf_range(20, 150), cuts = 0, joins = 0;
	uint64_t h = DBL * 2 + CNT;
	FN(items) = malloc(sizeof(IT) * NIT);
	memset(FN(items), 0x5a, sizeof(IT) * NIT);
	FN(npool) = 0;
	for (i = 0; i < NIT; ++i) { FN(items)[i].id = i; FN(pool)[FN(npool)++] = NIT - 1 - i; }
	for (k = 0; k < 3; ++k) {
		FN(len)[k] = 0; FN(tainted)[k] = 0;
		memset(&FN(lists)[k], 0x5a, sizeof(LT));
		if (k == 1) { static LT st = CAT(CAT(LIST_List, K), _INIT)(st); static LT st2 = CAT(CAT(LIST_List, K), _INIT)(st2);
			if (!LIST_empty(&st)) vf_fail("static-init", "statically initialised list is not empty");
			if (LIST_begin(&st2) != LIST_end(&st2)) vf_fail("static-init", "statically initialised list is not empty");
#if CNT
			if (LIST_length(&st)) vf_fail("static-init", "length");
#endif
			LIST_push(&st, LIST_link(&FN(items)[0], link)); 
			if (LIST_begin(&st) != LIST_link(&FN(items)[0], link) || LIST_next(LIST_begin(&st)) != LIST_end(&st)) vf_fail("static-init", "push to a statically initialised list");
			LIST_init(&st);
		}
		LIST_init(&FN(lists)[k]);
	}
	for (i = 0; i < nops; ++i) {
		k = vf_below(3);
		int o = vf_below(22), n = FN(len)[k], * s = FN(seq)[k], j = (k + 1 + vf_below(2)) % 3;
		LT * l = &FN(lists)[k], * l2 = &FN(lists)[j];
		int n2 = FN(len)[j], * s2 = FN(seq)[j];
		int lenToo = vf_chance(60);
		h = vf_hash(&o, sizeof o, h * 31 + k * 3 + j);
		vf_trace("op %d on list %d (%d elements), other %d (%d)", o, k, n, j, n2);
		if (o < 5) { /* push */
			if (!FN(npool)) continue;
			int id = FN(pool)[--FN(npool)];
			LIST_push(l, LIST_link(&FN(items)[id], link));
			s[FN(len)[k]++] = id;
			FN(check)(k, "push", lenToo);
		} else if (o < 8) { /* unshift */
			if (!FN(npool)) continue;
			int id = FN(pool)[--FN(npool)];
			LIST_unshift(l, LIST_link(&FN(items)[id], link));
			memmove(s + 1, s, sizeof *s * n); s[0] = id; ++FN(len)[k];
			FN(check)(k, "unshift", lenToo);
		} else if (o < 11) { /* shift */
			LN * r = LIST_shift(l);
			if (!n) { if (r != LIST_end(l)) vf_fail("shift-empty", "shift of an empty list returned no anchor"); }
			else {
				if (r != LIST_link(&FN(items)[s[0]], link)) vf_fail("shift", "shift returned the wrong element");
				FN(pool)[FN(npool)++] = s[0]; memmove(s, s + 1, sizeof *s * (n - 1)); --FN(len)[k];
			}
			FN(check)(k, "shift", lenToo);
		} else if (o < 13) { /* pop */
#if DBL
			LN * r = LIST_pop(l);
			if (!n) { if (r != LIST_end(l)) vf_fail("pop-empty", "pop of an empty list returned no anchor"); }
			else {
				if (r != LIST_link(&FN(items)[s[n - 1]], link)) vf_fail("pop", "pop returned the wrong element");
				FN(pool)[FN(npool)++] = s[n - 1]; --FN(len)[k];
			}
			FN(check)(k, "pop", lenToo);
#endif
		} else if (o == 13) { /* insert before */
#if DBL
			if (!FN(npool)) continue;
			int at = vf_below(n + 1), id = FN(pool)[--FN(npool)];
			LIST_insert(l, LIST_at(l, at), LIST_link(&FN(items)[id], link));
			memmove(s + at + 1, s + at, sizeof *s * (n - at)); s[at] = id; ++FN(len)[k];
			FN(check)(k, "insert", lenToo);
#endif
		} else if (o == 14) { /* unlink */
#if DBL
			if (!n) continue;
			int at = vf_below(n);
			LIST_unlink(l, LIST_link(&FN(items)[s[at]], link));
			FN(pool)[FN(npool)++] = s[at]; memmove(s + at, s + at + 1, sizeof *s * (n - at - 1)); --FN(len)[k];
			FN(check)(k, "unlink", lenToo);
#endif
		} else if (o == 15 || o == 16) { /* concatenate */
			if (o == 15) { LIST_concatenatePush(l, l2); memcpy(s + n, s2, sizeof *s * n2); }
			else { LIST_concatenateUnshift(l, l2); memmove(s + n2, s, sizeof *s * n); memcpy(s, s2, sizeof *s * n2); }
			FN(len)[k] += n2; FN(len)[j] = 0; ++joins;
			FN(check)(k, o == 15 ? "concatenatePush" : "concatenateUnshift", lenToo); FN(check)(j, "concatenate (source)", lenToo);
		} else if (o == 17 || o == 18) { /* cut */
#if DBL
			while (FN(len)[j]) { LIST_shift(l2); FN(pool)[FN(npool)++] = s2[0]; memmove(s2, s2 + 1, sizeof *s2 * (FN(len)[j] - 1)); --FN(len)[j]; }
			if (vf_chance(60)) memset(l2, 0x5a, sizeof *l2);
			int at = vf_below(n + 1);
			LN * pv = LIST_at(l, at);
			if (o == 17) {
#if CNT
				if (vf_chance(40)) LIST_separateFromDC(l, l2, pv); else
#endif
				LIST_separateFrom(l, l2, pv);
				memcpy(s2, s + at, sizeof *s * (n - at)); FN(len)[j] = n - at; FN(len)[k] = at;
			} else {
#if CNT
				if (vf_chance(40)) LIST_separateUntilDC(l, l2, pv); else
#endif
				LIST_separateUntil(l, l2, pv);
				memcpy(s2, s, sizeof *s * at); FN(len)[j] = at; memmove(s, s + at, sizeof *s * (n - at)); FN(len)[k] = n - at;
			}
			++cuts;
			FN(check)(k, o == 17 ? "separateFrom" : "separateUntil", lenToo); FN(check)(j, "separate (new list)", lenToo);
#endif
		} else if (o == 19) { /* from vector: replace an emptied list */
			while (FN(len)[k]) { FN(pool)[FN(npool)++] = s[--FN(len)[k]]; }
			/* needs a consecutive run of free items */
			int used[NIT] = {0}, q, a = vf_below(NIT), c = 0;
			for (q = 0; q < FN(npool); ++q) used[FN(pool)[q]] = 1;
			while (a + c < NIT && used[a + c] && c < 10) ++c;
			if (vf_chance(50)) memset(l, 0x5a, sizeof *l);
			c = vf_below(c + 1);
			LIST_fromVector(l, FN(items) + a, link, c);
			for (q = 0; q < c; ++q) s[q] = a + q;
			int m = 0;
			for (q = 0; q < FN(npool); ++q) if (FN(pool)[q] < a || FN(pool)[q] >= a + c) FN(pool)[m++] = FN(pool)[q];
			FN(npool) = m; FN(len)[k] = c;
			FN(check)(k, "fromVector", lenToo);
		} else if (o == 20) { /* positions and iteration */
			int q = vf_below(n + 1), c = 0;
			if (LIST_at(l, q) != (q == n ? LIST_end(l) : LIST_link(&FN(items)[s[q]], link))) vf_fail("at", "at(%d) of %d", q, n);
			if (n) {
				int b = vf_below(n), f = vf_below(n - b + 1);
				LN * x = LIST_forward(LIST_link(&FN(items)[s[b]], link), f);
				if (x != (b + f == n ? LIST_end(l) : LIST_link(&FN(items)[s[b + f]], link))) vf_fail("forward", "forward");
#if DBL
				f = vf_below(b + 2);
				x = LIST_rewind(LIST_link(&FN(items)[s[b]], link), f);
				if (x != (f == b + 1 ? LIST_end(l) : LIST_link(&FN(items)[s[b - f]], link))) vf_fail("rewind", "rewind");
#endif
			}
			IT * it;
			LIST_foreachItem(l, it, link) { if (it->id != s[c]) vf_fail("foreach", "foreachItem at %d", c); ++c; }
			if (c != n) vf_fail("foreach", "foreachItem visits %d of %d", c, n);
			if (n) {
				int b = vf_below(n); c = b + 1; it = &FN(items)[s[b]];
				LIST_foreachItem_continue(l, it, link) { if (it->id != s[c]) vf_fail("foreach", "continue at %d", c); ++c; }
				if (c != n) vf_fail("foreach", "foreachItem_continue visits up to %d of %d", c, n);
			}
#if DBL
			c = n;
			LIST_foreachItemRev(l, it, link) { --c; if (c < 0 || it->id != s[c]) vf_fail("foreach", "foreachItemRev at %d", c); }
			if (c) vf_fail("foreach", "foreachItemRev misses %d", c);
			{
				int b = vf_below(n + 1); c = b; it = b == n ? LIST_item(LIST_end(l), IT, link) : &FN(items)[s[b]];
				LIST_foreachItemRev_continue(l, it, link) { --c; if (c < 0 || it->id != s[c]) vf_fail("foreach", "foreachItemRev_continue at %d", c); }
				if (c) vf_fail("foreach", "foreachItemRev_continue misses %d", c);
			}
			LN * link, * nx;
			c = n;
			LIST_foreachRev(l, link) { --c; if (LIST_item(link, IT, link)->id != s[c]) vf_fail("foreach", "foreachRev"); }
			if (c) vf_fail("foreach", "foreachRev misses %d", c);
#endif
		} else { /* safe iteration with removal */
#if DBL
			LN * link, * nx; int c = 0, m = 0, rev = vf_chance(50), keep[NIT];
			if (!rev) {
				LIST_foreachSafe(l, link, nx) {
					if (c >= n || LIST_item(link, IT, link)->id != s[c]) vf_fail("foreach-safe", "position %d", c);
					if (vf_chance(40)) { LIST_unlink(l, link); FN(pool)[FN(npool)++] = s[c]; memset(link, 0x77, sizeof *link); } else keep[m++] = s[c];
					++c;
				}
			} else {
				LIST_foreachRevSafe(l, link, nx) {
					if (c >= n || LIST_item(link, IT, link)->id != s[n - 1 - c]) vf_fail("foreach-safe", "reverse position %d", c);
					if (vf_chance(40)) { LIST_unlink(l, link); FN(pool)[FN(npool)++] = s[n - 1 - c]; memset(link, 0x77, sizeof *link); } else keep[m++] = s[n - 1 - c];
					++c;
				}
			}
			if (c != n) vf_fail("foreach-safe", "visited %d of %d", c, n);
			for (c = 0; c < m; ++c) s[c] = rev ? keep[m - 1 - c] : keep[c];
			FN(len)[k] = m;
			FN(check)(k, "unlink while iterating", lenToo);
#endif
		}
		vf_count("operations", 1);
	}
	for (k = 0; k < 3; ++k) FN(check)(k, "end", 1);
	free(FN(items));
	vf_count("eval", 1); vf_count("cuts", cuts); vf_count("joins", joins);
	if (joins) vf_distinct(h);
	if (vf_want_sample() && cuts) vf_sample("%d operations (kind dbl=%d counted=%d), %d joins, %d cuts, final lengths %d/%d/%d", nops, DBL, CNT, joins, cuts, FN(len)[0], FN(len)[1], FN(len)[2]);
}
#undef LT
#undef IT
#undef FN
#undef K
#undef DBL
#undef CNT
#undef LN
