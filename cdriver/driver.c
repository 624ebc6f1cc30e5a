/* A program as a user of the library would write it: it knows the library only
 * by turtls.h and libturtls.so. It carries out calls for the harness, which is
 * at the other end of the socket that is its standard input, and hands the
 * transport's calls on to it. What has a name in the header is referred to by
 * that name and told to the harness in the harness's own numbers. */
#include "turtls.h"

#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

static void out(const void *p, size_t n)
{
    const char *b = p;
    while (n > 0) {
        ssize_t k = write(0, b, n);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            _exit(41);
        b += k;
        n -= (size_t)k;
    }
}

static void in(void *p, size_t n)
{
    char *b = p;
    while (n > 0) {
        ssize_t k = read(0, b, n);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            _exit(42);
        b += k;
        n -= (size_t)k;
    }
}

static void put32(uint32_t v)
{
    out(&v, 4);
}

static uint32_t get32(void)
{
    uint32_t v;
    in(&v, 4);
    return v;
}

static void put(char tag, const void *p, size_t n)
{
    out(&tag, 1);
    put32((uint32_t)n);
    out(p, n);
}

struct peer {
    int number;
};

static struct peer *current;

static void check(const void *ctx)
{
    if (ctx != (const void *)current)
        put('B', "the context is another one", 26);
}

static ptrdiff_t do_write(const void *buf, size_t amt, const void *ctx)
{
    check(ctx);
    put('W', buf, amt);
    return (ptrdiff_t)(int32_t)get32();
}

static ptrdiff_t do_read(void *buf, size_t amt, const void *ctx)
{
    uint64_t a = amt;
    int32_t n;
    check(ctx);
    put('R', &a, 8);
    n = (int32_t)get32();
    if (n > 0)
        in(buf, (size_t)n);
    return n;
}

static void do_close(const void *ctx)
{
    check(ctx);
    put('C', "", 0);
}

/* The codes of RFC 8446, section 6.2. */
static const struct {
    int code;
    enum TurtlsAlert alert;
} alerts[] = {
    { 0, TURTLS_ALERT_CLOSE_NOTIFY },
    { 10, TURTLS_ALERT_UNEXPECTED_MESSAGE },
    { 20, TURTLS_ALERT_BAD_RECORD_MAC },
    { 22, TURTLS_ALERT_RECORD_OVERFLOW },
    { 40, TURTLS_ALERT_HANDSHAKE_FAILURE },
    { 42, TURTLS_ALERT_BAD_CERT },
    { 43, TURTLS_ALERT_UNSUPPORTED_CERT },
    { 44, TURTLS_ALERT_CERT_REVOKED },
    { 45, TURTLS_ALERT_CERT_EXPIRED },
    { 46, TURTLS_ALERT_CERT_UNKNOWN },
    { 47, TURTLS_ALERT_ILLEGAL_PARAM },
    { 48, TURTLS_ALERT_UNKNOWN_CA },
    { 49, TURTLS_ALERT_ACCESS_DENIED },
    { 50, TURTLS_ALERT_DECODE_ERROR },
    { 51, TURTLS_ALERT_DECRYPT_ERORR },
    { 70, TURTLS_ALERT_PROTOCOL_VERSION },
    { 71, TURTLS_ALERT_INSUFFICIENT_SECURITY },
    { 80, TURTLS_ALERT_INTERNAL_ERROR },
    { 86, TURTLS_ALERT_INAPPROPRIATE_FALLBACK },
    { 90, TURTLS_ALERT_USER_CANCELLED },
    { 109, TURTLS_ALERT_MISSING_EXTENSION },
    { 110, TURTLS_ALERT_UNSUPPORTED_EXTENSION },
    { 112, TURTLS_ALERT_UNRECOGNIZED_NAME },
    { 113, TURTLS_ALERT_BAD_CERT_STATUS_RESPONSE },
    { 115, TURTLS_ALERT_UNKNOWN_PSK_IDENTITY },
    { 116, TURTLS_ALERT_CERT_REQUIRED },
    { 120, TURTLS_ALERT_NO_APP_PROTOCOL },
};
#define N_ALERTS (sizeof alerts / sizeof alerts[0])

static int32_t alert_code(enum TurtlsAlert a)
{
    size_t i;
    for (i = 0; i < N_ALERTS; i++)
        if (alerts[i].alert == a)
            return alerts[i].code;
    return -1;
}

static int32_t error_number(enum TurtlsError e)
{
    if (e == TURTLS_ERROR_TLS)
        return 0;
    if (e == TURTLS_ERROR_TLS_PEER)
        return 1;
    if (e == TURTLS_ERROR_RNG)
        return 2;
    if (e == TURTLS_ERROR_WANT_READ)
        return 3;
    if (e == TURTLS_ERROR_WANT_WRITE)
        return 4;
    if (e == TURTLS_ERROR_PRIV_KEY_IS_ZERO)
        return 5;
    if (e == TURTLS_ERROR_MISSING_EXTENSIONS)
        return 6;
    return -1;
}

/* Everything in the header that has a value. */
static int describe(char *b, size_t n)
{
#define I(name) #name, (long)(name)
#define S(type) "size " #type, (long)sizeof(struct type)
#define O(type, field) #type "." #field, (long)offsetof(struct type, field)
    static const struct {
        const char *name;
        long value;
    } v[] = {
        { I(TURTLS_ERROR_TLS) },
        { I(TURTLS_ERROR_TLS_PEER) },
        { I(TURTLS_ERROR_RNG) },
        { I(TURTLS_ERROR_WANT_READ) },
        { I(TURTLS_ERROR_WANT_WRITE) },
        { I(TURTLS_ERROR_PRIV_KEY_IS_ZERO) },
        { I(TURTLS_ERROR_MISSING_EXTENSIONS) },
        { I(TURTLS_ECDSA_SECP256R1) },
        { I(TURTLS_SECP256R1) },
        { I(TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256) },
        { I(TurtlsCipherList_TURTLS_AES_128_GCM_SHA256) },
        { "size TurtlsError", sizeof(enum TurtlsError) },
        { "size TurtlsAlert", sizeof(enum TurtlsAlert) },
        { "size TurtlsCipherList", sizeof(TurtlsCipherList) },
        { S(TurtlsIo) },
        { O(TurtlsIo, write_fn) },
        { O(TurtlsIo, read_fn) },
        { O(TurtlsIo, close_fn) },
        { O(TurtlsIo, ctx) },
        { S(TurtlsExts) },
        { O(TurtlsExts, server_name) },
        { O(TurtlsExts, sig_algs) },
        { O(TurtlsExts, sup_groups) },
        { O(TurtlsExts, app_protos) },
        { O(TurtlsExts, app_protos_len) },
        { S(TurtlsConfig) },
        { O(TurtlsConfig, extensions) },
        { O(TurtlsConfig, cipher_suites) },
    };
    size_t i;
    int at = 0;
    for (i = 0; i < sizeof v / sizeof v[0]; i++)
        at += snprintf(b + at, n - (size_t)at, "%s=%ld\n", v[i].name, v[i].value);
    for (i = 0; i < N_ALERTS; i++)
        at += snprintf(b + at, n - (size_t)at, "alert %d=%ld\n", alerts[i].code, (long)alerts[i].alert);
    return at;
}

/* The protocol's name, as long as the connection exists. */
static const char *first_proto;

/* Configuration strings live as long as the program. */
static char **kept;
static size_t n_kept;

static char *keep(size_t n)
{
    char *s = malloc(n > 0 ? n : 1);
    kept = realloc(kept, (n_kept + 1) * sizeof *kept);
    if (s == NULL || kept == NULL)
        _exit(43);
    kept[n_kept++] = s;
    return s;
}

static char *get_string(size_t *len)
{
    size_t n = get32();
    char *s = keep(n + 1);
    in(s, n);
    s[n] = 0;
    *len = n;
    return s;
}

static struct TurtlsConn *new_conn(void)
{
    struct TurtlsIo io;
    io.write_fn = do_write;
    io.read_fn = do_read;
    io.close_fn = do_close;
    io.ctx = current;
    struct TurtlsConn *conn = turtls_new(io);
    first_proto = conn != NULL ? turtls_app_proto(conn) : NULL;
    return conn;
}

int main(void)
{
    struct peer peer = { 1 };
    struct TurtlsConn *conn = NULL;
    struct rlimit lim = { 60, 120 }, none = { 0, 0 };
    setrlimit(RLIMIT_CPU, &lim);
    setrlimit(RLIMIT_CORE, &none);
    current = &peer;

    for (;;) {
        char tag;
        int32_t ret = 0;
        in(&tag, 1);
        switch (tag) {
        case 'n':
            conn = new_conn();
            ret = conn != NULL;
            break;
        case 'c': {
            struct TurtlsConfig *cfg = turtls_get_config(conn);
            uint32_t has_name = get32(), has_protos = get32();
            uint32_t sig = get32(), grp = get32(), suites = get32(), stray = get32();
            size_t name_len, protos_len;
            char *name = get_string(&name_len), *protos = get_string(&protos_len);
            cfg->extensions.server_name = has_name ? name : NULL;
            cfg->extensions.sig_algs = sig ? TURTLS_ECDSA_SECP256R1 : 0;
            cfg->extensions.sup_groups = grp ? TURTLS_SECP256R1 : 0;
            cfg->extensions.app_protos = has_protos ? protos : NULL;
            cfg->extensions.app_protos_len = has_protos ? protos_len : stray;
            cfg->cipher_suites = 0;
            if (suites & 1)
                cfg->cipher_suites |= TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256;
            if (suites & 2)
                cfg->cipher_suites |= TurtlsCipherList_TURTLS_AES_128_GCM_SHA256;
            break;
        }
        case 'k':
            ret = turtls_connect(conn);
            break;
        case 'x':
            turtls_close(conn);
            break;
        case 'X':
            turtls_close(NULL);
            break;
        case 'f':
            turtls_free(conn);
            conn = NULL;
            break;
        case 'F':
            turtls_free(NULL);
            break;
        case 'q': {
            const char *proto = turtls_app_proto(conn);
            int32_t v[2];
            size_t n = strlen(proto);
            if (strcmp(first_proto, proto) != 0)
                put('B', "turtls_app_proto's first result points to another name", 54);
            v[0] = error_number(turtls_get_error(conn));
            v[1] = alert_code(turtls_get_tls_error(conn));
            out("q", 1);
            put32((uint32_t)(8 + n));
            out(v, 8);
            out(proto, n);
            continue;
        }
        case 's': {
            int code = (int)get32();
            const char *s = NULL;
            size_t i;
            for (i = 0; i < N_ALERTS; i++)
                if (alerts[i].code == code)
                    s = turtls_stringify_alert(alerts[i].alert);
            put('s', s ? s : "", s ? strlen(s) : 0);
            continue;
        }
        case 'l': {
            char b[8192];
            int n = describe(b, sizeof b);
            put('s', b, (size_t)n);
            continue;
        }
        case 'e':
            while (n_kept > 0)
                free(kept[--n_kept]);
            free(kept);
            put('r', &ret, 4);
            return 0;
        default:
            _exit(44);
        }
        put('r', &ret, 4);
    }
}
