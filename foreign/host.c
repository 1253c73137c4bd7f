/* The process around code that was compiled for another machine and translated: system calls, memory between unmapped
 * pages, and the loop over seeds. No C library.
 *   host seeds BASE FIRST SECONDS | host text < scenarios | host digest BASE FIRST COUNT
 *   host vast BASE FIRST SECONDS | host vdigest BASE FIRST COUNT
 * prints one JSON object, as engine.js does. */
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
typedef unsigned long word;

#ifdef __x86_64__
enum { READ = 0, WRITE = 1, MPROTECT = 10, FORK = 57, WAIT4 = 61, EXIT = 231, CLOCK = 228, RLIMIT = 160, MEMFD = 319, TRUNCATE = 77 };
static long sys(long n, long a, long b, long c, long d) {
    long r;
    register long r10 __asm__("r10") = d;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
static word map_at(word at, word n, long prot, long flags, long fd) {
    long r;
    register long r10 __asm__("r10") = flags;
    register long r8 __asm__("r8") = fd;
    register long r9 __asm__("r9") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(9), "D"(at), "S"(n), "d"(prot), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
__asm__(".globl _start\n_start: mov %rsp, %rdi\n and $-16, %rsp\n call begin\n ud2\n");
#else
enum { READ = 3, WRITE = 4, MPROTECT = 125, FORK = 2, WAIT4 = 114, EXIT = 252, CLOCK = 265, RLIMIT = 75, MEMFD = 356, TRUNCATE = 93 };
static long sys(long n, long a, long b, long c, long d) {
    long r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d) : "memory");
    return r;
}
static word map_at(word at, word n, long prot, long flags, long fd) {
    long a[6] = {at, n, prot, flags, fd, 0};
    return sys(90, (long)a, 0, 0, 0);
}
__asm__(".globl _start\n_start: mov %esp, %eax\n and $-16, %esp\n sub $12, %esp\n push %eax\n call begin\n ud2\n");
#endif

static word map(word n, int shared) { return map_at(0, n, shared ? 3 : 0, shared ? 0x21 : 0x4022, -1); }

void *memcpy(void *d, const void *s, word n) {
    void *r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, word n) {
    if ((word)d - (word)s >= n) return memcpy(d, s, n);
    u8 *x = (u8 *)d + n - 1;
    const u8 *y = (const u8 *)s + n - 1;
    __asm__ volatile("std\n rep movsb\n cld" : "+D"(x), "+S"(y), "+c"(n) : : "memory");
    return d;
}
void *memset(void *d, int c, word n) {
    void *r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
int memcmp(const void *a, const void *b, word n) {
    for (word i = 0; i < n; i++) {
        int d = ((const u8 *)a)[i] - ((const u8 *)b)[i];
        if (d) return d;
    }
    return 0;
}
int bcmp(const void *a, const void *b, word n) { return memcmp(a, b, n); }

/* of the translated library */
u32 one(u32 lo, u32 hi, u32 i);
void show(u32 lo, u32 hi, u32 i);
u32 replay(const u8 *p, word n);
const u8 *message(void);
word message_len(void);
u32 operations(void);
u32 hash(u32 half);
u32 vast_one(u32 lo, u32 hi, u32 i);
void vast_show(u32 lo, u32 hi, u32 i);
u32 state(void);
u32 counts(word k);

#define PAGE 4096ul
#define HEAP (256ul << 20)
#define ROOM (96 * PAGE)
#define TABLE (1u << 22)
static word heap, rooms;
static struct {
    u32 at, runs, operations_lo, operations_hi, distinct, text_len;
    u32 counts[4], hash_lo, hash_hi;
    u8 text[8 << 20];
    u64 seen[TABLE];
} *shared;

static void leave(int status) {
    for (;;) sys(EXIT, status, 0, 0, 0);
}
static void need(int ok) {
    if (!ok) leave(2);
}
static void keep_message(void);
static void keep_counts(void) {
    for (word k = 0; k < 4; k++) shared->counts[k] += counts(k);
    u64 ops = ((u64)shared->operations_hi << 32 | shared->operations_lo) + operations();
    shared->operations_lo = ops, shared->operations_hi = ops >> 32;
    shared->hash_lo = hash(0), shared->hash_hi = hash(1);
}
void host_trap(void) {
    if (state() == 1) {
        keep_counts();
        leave(0);
    }
    if (state() == 2) {
        keep_message();
        leave(1);
    }
    leave(97);
}
word host_heap(word end) { return end ? heap + HEAP : heap; }
word host_room(word k) { return rooms + PAGE + (k / 2) * (ROOM + PAGE) + (k % 2) * ROOM; }
void host_protect(word on) {
    static word is;
    if (on != is) need(sys(MPROTECT, host_room(0), ROOM, on ? 1 : 3, 0) == 0);
    is = on;
}

/* The windows of vast buffers: PERIOD bytes of memory, over and over. */
#define PERIOD (15ul << 20)
static word window_fd[2], window_flat[2];
static long window_file(word k) {
    if (!window_fd[k]) {
        static const char name[] = "window";
        long fd = sys(MEMFD, (long)name, 0, 0, 0);
        need(fd > 0);
        need(sys(TRUNCATE, fd, PERIOD, 0, 0) == 0);
        window_fd[k] = fd;
    }
    return window_fd[k];
}
word host_flat(word k) {
    if (!window_flat[k]) window_flat[k] = map_at(0, PERIOD, 3, 1, window_file(k));
    need(window_flat[k] < -4096ul);
    return window_flat[k];
}
word host_window(word k, word bytes, word access) {
    word at = map_at(0, bytes + 2 * PAGE, 0, 0x4022, -1);
    need(at < -4096ul);
    at += PAGE;
    for (word o = 0; access && o < bytes; o += PERIOD)
        need(map_at(at + o, bytes - o < PERIOD ? bytes - o : PERIOD, access == 1 ? 1 : 3, access == 1 ? 0x11 : 0x8011, window_file(k)) == at + o);
    return at;
}
void host_page(word at, const u8 *content) {
    need(map_at(at, PAGE, 3, 0x32, -1) == at);
    memcpy((void *)at, content, PAGE);
}
void host_read_only(word at) { need(sys(MPROTECT, at, PAGE, 1, 0) == 0); }

static long now_ms(void) {
    long t[2];
    need(sys(CLOCK, 1, (long)t, 0, 0) == 0);
    return t[0] * 1000 + t[1] / 1000000;
}
static void limit_cpu(word s) {
    word l[2] = {s, s + 2};
    need(sys(RLIMIT, 0, (long)l, 0, 0) == 0);
}
static void put(const void *p, word n) {
    while (n) {
        long r = sys(WRITE, 1, (long)p, n, 0);
        need(r > 0);
        p = (const char *)p + r;
        n -= r;
    }
}
static void say(const char *s) {
    word n = 0;
    while (s[n]) n++;
    put(s, n);
}
static void say_n(u64 x) {
    char b[24];
    int i = 24;
    u32 hi = x >> 32, lo = x;
    do { /* no 64-bit division */
        u32 r = 0, q;
        u64 y = 0;
        for (int k = 63; k >= 0; k--) {
            r = r << 1 | (k >= 32 ? hi >> (k - 32) & 1 : lo >> k & 1);
            y <<= 1;
            if (r >= 10) r -= 10, y |= 1;
        }
        q = r;
        b[--i] = '0' + q;
        hi = y >> 32, lo = y;
    } while (hi | lo);
    put(b + i, 24 - i);
}
static void say_text(void) {
    for (u32 i = 0; i < shared->text_len; i++) {
        u8 c = shared->text[i];
        if (c == '"' || c == '\\') say("\\");
        if (c < 32) c = ' ';
        put(&c, 1);
    }
}
static void keep_message(void) {
    word n = message_len();
    const u8 *p = message();
    if (n > sizeof shared->text) n = sizeof shared->text;
    for (word i = 0; i < n; i++) shared->text[i] = p[i];
    shared->text_len = n;
}
static u64 number(const char *s) {
    u64 x = 0;
    for (; *s >= '0' && *s <= '9'; s++) x = x * 10 + (*s - '0');
    return x;
}
/* 0 fine, otherwise the status as wait4 has it */
static int child(void) {
    int st = 0;
    for (;;) {
        long r = sys(WAIT4, -1, (long)&st, 0, 0);
        if (r == -4) continue;
        need(r > 0);
        return st;
    }
}
static void remember(u64 h) {
    if (!h) h = 1;
    for (u32 i = (u32)h & (TABLE - 1), k = 0; k < 64; k++, i = (i + 1) & (TABLE - 1)) {
        if (shared->seen[i] == h) return;
        if (!shared->seen[i]) {
            shared->seen[i] = h;
            shared->distinct++;
            return;
        }
    }
}
static void violation(int st) {
    say("\"violation\": {\"class\": \"");
    int sig = st & 127, code = st >> 8 & 255;
    if (sig == 24) say("no-progress\", \"message\": \"does not end");
    else if (sig) say("memory-fault\", \"message\": \"killed by signal "), say_n(sig);
    else if (code == 1) say("wrong-result\", \"message\": \""), say_text();
    else say("panic\", \"message\": \"panicked");
    say("\"}");
}
static void text_of(u32 lo, u32 hi, u32 i, void show(u32, u32, u32)) {
    long p = sys(FORK, 0, 0, 0, 0);
    need(p >= 0);
    if (p == 0) {
        limit_cpu(20);
        show(lo, hi, i);
        keep_message();
        leave(0);
    }
    need(child() == 0);
}

static void seeds(char **v) {
    u64 base = number(v[0]);
    u32 lo = base, hi = base >> 32, first = number(v[1]);
    u32 seconds = number(v[2]);
    long end = now_ms() + (long)seconds * 1000;
    text_of(lo, hi, first, show);
    say("{\"sample\": \"");
    say_text();
    say("\", ");
    shared->at = first;
    long p = sys(FORK, 0, 0, 0, 0);
    need(p >= 0);
    if (p == 0) {
        limit_cpu(seconds + 30);
        for (u32 i = first;; i++) {
            shared->at = i;
            u32 r = one(lo, hi, i);
            shared->runs++;
            u64 ops = ((u64)shared->operations_hi << 32 | shared->operations_lo) + operations();
            shared->operations_lo = ops, shared->operations_hi = ops >> 32;
            if (r) {
                keep_message();
                leave(1);
            }
            remember((u64)hash(1) << 32 | hash(0));
            if ((i & 15) == 0 && now_ms() >= end) leave(0);
        }
    }
    int st = child();
    need(!(st & 127) || (st & 127) != 9);
    need((st >> 8 & 255) != 2);
    if (st) {
        violation(st);
        text_of(lo, hi, shared->at, show);
        say(", \"scenario\": \"");
        say_text();
        say("\"");
    } else say("\"violation\": null");
    say(", \"runs\": "), say_n(shared->runs);
    say(", \"distinct\": "), say_n(shared->distinct);
    say(", \"counters\": {\"operations\": "), say_n((u64)shared->operations_hi << 32 | shared->operations_lo), say("}}\n");
}

/* Each in a process of its own, which may end by a trap. */
static int vast_child(u32 lo, u32 hi, u32 i) {
    long p = sys(FORK, 0, 0, 0, 0);
    need(p >= 0);
    if (p == 0) {
        limit_cpu(140);
        if (vast_one(lo, hi, i)) {
            keep_message();
            leave(1);
        }
        keep_counts();
        leave(0);
    }
    int st = child();
    need((st & 127) != 9 && (st >> 8 & 255) != 2);
    return st;
}
static void vast(char **v) {
    u64 base = number(v[0]);
    u32 lo = base, hi = base >> 32, first = number(v[1]);
    long end = now_ms() + (long)number(v[2]) * 1000;
    text_of(lo, hi, first, vast_show);
    say("{\"sample\": \"");
    say_text();
    say("\", ");
    int st = 0;
    u32 i = first;
    do {
        st = vast_child(lo, hi, i);
        shared->runs++;
        remember((u64)shared->hash_hi << 32 | shared->hash_lo);
    } while (!st && ++i && now_ms() < end);
    if (st) {
        violation(st);
        text_of(lo, hi, i, vast_show);
        say(", \"scenario\": \"");
        say_text();
        say("\"");
    } else say("\"violation\": null");
    say(", \"runs\": "), say_n(shared->runs);
    say(", \"distinct\": "), say_n(shared->distinct);
    say(", \"counters\": {\"operations\": "), say_n((u64)shared->operations_hi << 32 | shared->operations_lo);
    say(", \"vast_blocks_refused\": "), say_n(shared->counts[0]);
    say(", \"vast_blocks_given\": "), say_n(shared->counts[1]);
    say(", \"operations_over_gigabytes\": "), say_n(shared->counts[2]);
    say(", \"ends_without_return\": "), say_n(shared->counts[3]), say("}}\n");
}
static void vast_digest(char **v) {
    u64 base = number(v[0]), h = 0xcbf29ce484222325ull;
    u32 first = number(v[1]), n = number(v[2]);
    for (u32 i = first; i < first + n; i++) {
        need(vast_child((u32)base, base >> 32, i) == 0);
        h = (h ^ shared->hash_lo) * 0x100000001b3ull;
        h = (h ^ shared->hash_hi) * 0x100000001b3ull;
    }
    say("{\"digest\": \""), say_n(h), say("\"}\n");
}

/* of the results of so many scenarios */
static void digest(char **v) {
    u64 base = number(v[0]), h = 0xcbf29ce484222325ull;
    u32 first = number(v[1]), n = number(v[2]);
    for (u32 i = first; i < first + n; i++) {
        need(one((u32)base, base >> 32, i) == 0);
        h = (h ^ hash(0)) * 0x100000001b3ull;
        h = (h ^ hash(1)) * 0x100000001b3ull;
    }
    say("{\"digest\": \""), say_n(h), say("\"}\n");
}

static void text(void) {
    static u8 in[16 << 20];
    word n = 0;
    long r;
    while ((r = sys(READ, 0, (long)(in + n), sizeof in - n, 0)) > 0) n += r;
    say("{");
    for (word i = 0; i < n;) {
        word k = i;
        while (k < n && in[k] != '\n') k++;
        if (k > i) {
            long p = sys(FORK, 0, 0, 0, 0);
            need(p >= 0);
            if (p == 0) {
                limit_cpu(140);
                u32 q = replay(in + i, k - i);
                if (q == 1) keep_message();
                leave(q == 9 ? 2 : q);
            }
            int st = child();
            need((st >> 8 & 255) != 2 && (st & 127) != 9);
            if (st) {
                violation(st);
                say("}\n");
                return;
            }
        }
        i = k + 1;
    }
    say("\"violation\": null}\n");
}

void begin(word *sp) {
    int c = sp[0];
    char **v = (char **)(sp + 1);
    heap = map(HEAP, 0);
    rooms = map(3 * PAGE + 2 * ROOM, 0);
    shared = (void *)map(sizeof *shared, 1);
    need(heap < -4096ul && rooms < -4096ul && (word)shared < -4096ul);
    need(sys(MPROTECT, heap, HEAP, 3, 0) == 0);
    need(sys(MPROTECT, host_room(0), ROOM, 3, 0) == 0 && sys(MPROTECT, host_room(2), ROOM, 3, 0) == 0);
    if (c >= 5 && v[1][0] == 's') seeds(v + 2);
    else if (c >= 2 && v[1][0] == 't') text();
    else if (c >= 5 && v[1][0] == 'd') digest(v + 2);
    else if (c >= 5 && v[1][0] == 'v' && v[1][1] == 'a') vast(v + 2);
    else if (c >= 5 && v[1][0] == 'v') vast_digest(v + 2);
    else leave(2);
    leave(0);
}
