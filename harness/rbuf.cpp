// Every state of the input buffer and random histories, compared with a plain queue of bytes.
// Output: one line "ok <evaluations> <distinct states>"; "MISMATCH ..." and status 3 otherwise.
#include <assert.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <deque>
#include <set>
#include <string>
#include <vector>
#include "read_buffer.h"

enum { needs_more_read, continue_processing, stop_here };

static unsigned long long evals, states;
static struct { char pre[64]; read_buffer b; char post[64]; } *G;
#define B (G->b)
static char ctx[400];

static uint64_t rs;
static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static uint32_t below(uint32_t n) { return n ? rnd() % n : 0; }

#define BAD(...) do { printf("MISMATCH %s: ", ctx); printf(__VA_ARGS__); printf("\n"); exit(3); } while (0)
#define EQ(what, got, want) do { long g_ = (long)(got), w_ = (long)(want); evals++; if (g_ != w_) BAD("%s is %ld, the queue says %ld", what, g_, w_); } while (0)

static uint16_t rp, wp;
static void snap() { rp = B.read_position; wp = B.write_position; }
static void unmoved(const char *what) {
	if (B.read_position != rp || B.write_position != wp) BAD("%s moved a position", what);
	for (int i = 0; i < 64; i++) if (G->pre[i] != 0x5a || G->post[i] != 0x5a) BAD("%s wrote beside the buffer", what);
}

// what is in the buffer, oldest first
struct Model {
	std::deque<char> q;
	std::string str(int n) const { return std::string(q.begin(), q.begin() + (n < (int)q.size() ? n : (int)q.size())); }
};

static void put(Model &m, const char *d, int n) {
	// as the server does: contiguous pieces
	while (n > 0) {
		int w = rbuf_write_to_end(&B);
		int room = BUFFER_SIZE - (int)m.q.size();
		if (w < 0 || w > room) BAD("%d bytes can be written at once, the queue has room for %d", w, room);
		if (w == 0) BAD("nothing can be written, the queue has room for %d", room);
		if (w > n) w = n;
		memcpy(RBUF_WRITE(B), d, w);
		RBUF_WRITEMOVE(B, (uint16_t)w);
		m.q.insert(m.q.end(), d, d + w);
		d += w;
		n -= w;
		evals++;
	}
}
static void get(Model &m, int n) {
	RBUF_READMOVE(B, n);
	m.q.erase(m.q.begin(), m.q.begin() + n);
}

static char dest[BUFFER_SIZE + 64], with[BUFFER_SIZE + 64];

static void counts(const Model &m) {
	int f = (int)m.q.size();
	snap();
	EQ("the number of readable bytes", rbuf_read_remaining(&B), f);
	EQ("the number of writable bytes", rbuf_write_remaining(&B), BUFFER_SIZE - f);
	EQ("RBUF_READLEN", RBUF_READLEN(B), f);
	EQ("RBUF_WRITELEN", (RBUF_WRITELEN(B)), BUFFER_SIZE - f);
	EQ("emptiness", (RBUF_EMPTY((&B))) ? 1 : 0, f == 0);
	int w = rbuf_write_to_end(&B);
	evals++;
	if (w < 0 || w > BUFFER_SIZE - f || (w == 0 && f < BUFFER_SIZE)) BAD("%d bytes can be written at once with %d free", w, BUFFER_SIZE - f);
	if ((B.write_position & (BUFFER_SIZE - 1)) + w > BUFFER_SIZE) BAD("%d bytes written at position %d leave the buffer", w, B.write_position & (BUFFER_SIZE - 1));
	unmoved("counting");
}

static void copy(const Model &m, int n) {
	int f = (int)m.q.size(), want = n < f ? n : f;
	memset(dest, 0x77, n + 8);
	snap();
	int g = rbuf_copyn(&B, dest, n);
	EQ("the number of bytes copied", g, want);
	for (int i = 0; i < want; i++) if (dest[i] != m.q[i]) BAD("byte %d of %d copied is %d instead of %d", i, n, dest[i], m.q[i]);
	for (int i = want; i < n + 8; i++) if (dest[i] != 0x77) BAD("byte %d was written when %d were to be copied", i, want);
	unmoved("copying");
}

static void compare(const Model &m, int n, int at) {
	int f = (int)m.q.size();
	std::string s = m.str(n);
	memset(with, 'z', n + 1);
	memcpy(with, s.data(), s.size());
	if (at >= 0) with[at] = with[at] == 'a' ? 'b' : 'a';
	snap();
	int r = rbuf_cmpn(&B, with, n);
	EQ("equality with a string", r == 0, n <= f && at < 0);
	unmoved("comparing");
}

// iterate over at most `until` bytes
static void iterate(const Model &m, int until) {
	int f = (int)m.q.size();
	char *buffer = NULL;
	int end, n, ret = continue_processing;
	static char seen[BUFFER_SIZE + 8];
	int k = 0, order = 0;
	snap();
	RBUF_ITERATE(B, n, buffer, end, ret, (n != k ? (order = 1) : 0, k < BUFFER_SIZE + 4 ? (void)(seen[k] = *buffer) : (void)0, k++, k == until ? stop_here : continue_processing));
	int want = until > 0 && until < f ? until : f;
	EQ("the number of bytes iterated over", k, want);
	EQ("the order of the offsets", order, 0);
	for (int i = 0; i < want; i++) if (seen[i] != m.q[i]) BAD("byte %d iterated over is %d instead of %d", i, seen[i], m.q[i]);
	EQ("the end of the iteration", ret, until > 0 && until <= f ? stop_here : needs_more_read);
	if (ret == needs_more_read) EQ("the offset at the end", n, f);
	unmoved("iterating");
}

static void peek(const Model &m, int at) {
#ifdef RBUF_PEEK
	EQ("a byte looked at", RBUF_PEEK(B, at), m.q[at]);
#endif
	if (at == 0) { char *p = RBUF_READ(B); EQ("the first byte", *p, m.q[0]); }
}

static void number(const Model &m, int max) {
	int f = (int)m.q.size();
	int n = max == -1 || max > f ? f : max;
	long long v = 0;
	bool ok = n > 0;
	for (int i = 0; i < n && ok; i++) {
		int c = m.q[i] - '0';
		if (c < 0 || c > 9) ok = false;
		else { v = v * 10 + c; if (v > INT_MAX) ok = false; }
	}
	int out = -12345;
	snap();
	bool r = rbuf_strntol(&B, &out, max);
	if (r != ok) BAD("the number \"%.*s\" (at most %d) is %s", n < 40 ? n : 40, m.str(n).c_str(), max, r ? "accepted" : "rejected");
	evals++;
	if (ok) EQ("a number", out, v);
	unmoved("parsing a number");
}

static void start(Model &m, uint32_t pos) {
	rbuf_init(&B);
	m.q.clear();
	if (B.read_position != B.write_position) BAD("a new buffer is not empty");
	// get there like a connection does
	static char fill[BUFFER_SIZE];
	while (pos) {
		uint32_t k = pos < BUFFER_SIZE ? pos : BUFFER_SIZE;
		put(m, fill, k);
		get(m, k);
		pos -= k;
	}
	EQ("the number of readable bytes", rbuf_read_remaining(&B), 0);
}

static char letter() { return (char)(below(20) ? 1 + below(255) : '0' + below(10)); }

static const char *nums[] = {"0", "1", "9", "10", "99", "007", "0000000000000000001", "2147483647", "2147483648", "2147483646", "4294967295", "4294967296", "4294967297",
	"21474836470", "9999999999", "99999999999999999999999", "00000000002147483647", "18446744073709551616", "12a", "a12", "-1", "+1", " 1", "1 ", "1\r", "", "2147483639", "2147483640",
	"2200000000", "3000000000", "1000000000", "10000000000", "/", ":", "1/", "1:"};

static void every_state(int part, int parts, bool deep) {
	Model m;
	static char data[BUFFER_SIZE * 2];
	int step = BUFFER_SIZE <= 256 ? 1 : 0;
	for (int o = part; o < BUFFER_SIZE; o += parts) {
		for (int era = 0; era < 2; era++) {
			// positions count modulo 65536
			uint32_t pos = o + (era ? 65536 - BUFFER_SIZE : 0);
			if (!step && era == 0 && o > 8 && o < BUFFER_SIZE - 8 && o % 61) continue;
			for (int f = 0; f <= BUFFER_SIZE; f++) {
				if (!step && f > 6 && f < BUFFER_SIZE - 6 && abs(f - (BUFFER_SIZE - o)) > 3 && f % 1021) continue;
				snprintf(ctx, sizeof ctx, "position %u, %d bytes stored", pos, f);
				start(m, pos);
				for (int i = 0; i < f; i++) data[i] = letter();
				put(m, data, f);
				states++;
				counts(m);
				int e = BUFFER_SIZE - o;    // where it wraps
				int lens[] = {0, 1, 2, e - 1, e, e + 1, f - 1, f, f + 1, (int)below(f + 1), (int)below(f + 1), f / 2};
				for (unsigned k = 0; k < sizeof lens / sizeof *lens; k++) {
					int n = lens[k];
					if (n < 0 || n > BUFFER_SIZE) continue;
					copy(m, n);
					compare(m, n, -1);
					if (n > 0 && n <= f) {
						compare(m, n, n - 1);
						compare(m, n, below(n));
						if (e > 0 && e < n) { compare(m, n, e); compare(m, n, e - 1); }
						peek(m, n - 1);
						iterate(m, n);
					}
				}
				iterate(m, 0);
				if (deep && step) for (int n = 0; n <= f; n++) { copy(m, n); compare(m, n, -1); }
				// part of it is read
				if (f) {
					int by = lens[below(3) + 3];
					if (by >= 0 && by <= f) { get(m, by); counts(m); copy(m, (int)m.q.size()); iterate(m, 0); }
					// and the room used again
					int room = BUFFER_SIZE - (int)m.q.size();
					int w = below(3) ? room : (int)below(room + 1);
					put(m, data + 7, w > BUFFER_SIZE ? BUFFER_SIZE : w);
					counts(m);
					copy(m, (int)m.q.size());
					iterate(m, 0);
				}
			}
			for (unsigned k = 0; k < sizeof nums / sizeof *nums; k++) {
				for (int t = 0; t < 4; t++) {
					std::string s = nums[k];
					if (t == 1) s += "\r\n";
					if (t == 2) s += "7";
					if (t == 3) s = std::string(below(30), '0') + s;
					if ((int)s.size() > BUFFER_SIZE) continue;
					snprintf(ctx, sizeof ctx, "position %u, number %s", pos, s.c_str());
					start(m, pos);
					put(m, s.data(), (int)s.size());
					if (s.size()) { number(m, -1); number(m, (int)s.size()); number(m, (int)strlen(nums[k])); number(m, 1); number(m, (int)s.size() + 3); }
				}
			}
		}
	}
}

static void histories(int n) {
	Model m;
	static char data[BUFFER_SIZE * 2];
	std::set<uint64_t> seen;
	start(m, 0);
	for (int i = 0; i < n; i++) {
		int f = (int)m.q.size(), room = BUFFER_SIZE - f;
		snprintf(ctx, sizeof ctx, "history step %d, position %u, %d bytes stored", i, B.read_position, f);
		switch (below(9)) {
		case 0: case 1: case 2: {
			int w = below(4) == 0 ? room : (int)below(below(3) ? (room < 40 ? room : 40) + 1 : room + 1);
			bool dig = below(3) == 0;
			for (int k = 0; k < w; k++) data[k] = dig ? (char)('0' + below(10)) : letter();
			put(m, data, w);
			break;
		}
		case 3: case 4: get(m, below(4) == 0 ? f : (int)below(below(3) ? (f < 40 ? f : 40) + 1 : f + 1)); break;
		case 5: copy(m, (int)below(BUFFER_SIZE + 1)); break;
		case 6: { int k = (int)below(f + 2); if (k > BUFFER_SIZE) k = BUFFER_SIZE; compare(m, k, k && k <= f && below(2) ? (int)below(k) : -1); break; }
		case 7: iterate(m, below(2) ? 0 : (int)below(f + 1)); if (f) peek(m, below(f)); break;
		case 8: if (f) { number(m, below(2) ? -1 : (int)below(14)); } break;
		}
		counts(m);
		if (seen.size() < 2000000) seen.insert((uint64_t)B.read_position << 20 | m.q.size());
	}
	states += seen.size();
}

int main(int argc, char **argv) {
	int part = atoi(argv[2]), parts = atoi(argv[3]), n = atoi(argv[4]);
	rs = 88172645463325252ull ^ (((uint64_t)atoi(argv[5]) * 1000 + part) << 20);
	for (int i = 0; i < 20; i++) rnd();
	G = (decltype(G))malloc(sizeof *G);
	memset(G, 0x5a, sizeof *G);
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (!strcmp(argv[1], "states")) every_state(part, parts, n != 0);
	else histories(n);
	printf("ok %llu %llu\n", evals, states);
	return 0;
}
