// C01-C05: replays behaviours of spec/stream.qnt on MemoryStream.  Arguments and
// results are integers (byte strings are little-endian hexadecimal integers).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>

#include "colorsystem.hpp"
using namespace ColorSystem;

static std::vector<std::string> a;
static FILE                    *out;
static int64_t                  I(int i) { return strtoll(a[i].c_str(), NULL, 10); }
static uint64_t                 U(int i) { return strtoull(a[i].c_str(), NULL, 10); }
// bytes written as "x<hex>", first byte first
static std::vector<uint8_t> X(int i)
{
    std::vector<uint8_t> r;
    for (size_t k = 1; k + 1 < a[i].size(); k += 2) r.push_back((uint8_t)strtol(a[i].substr(k, 2).c_str(), NULL, 16));
    return r;
}
static std::string S(int i)
{
    auto x = X(i);
    return std::string(x.begin(), x.end());
}
static void eu(uint64_t v) { fprintf(out, "%llu ", (unsigned long long)v); }
static void ei(int64_t v) { fprintf(out, "%lld ", (long long)v); }
static void ex(const uint8_t *p, size_t n)
{
    fputc('x', out);
    for (size_t i = 0; i < n; i++) fprintf(out, "%02x", p[i]);
    fputc(' ', out);
}

int main(int argc, char **argv)
{
    if (argc < 3) return 64;
    FILE *in = fopen(argv[1], "r");
    FILE *res = fopen(argv[2], "w");
    if (!in || !res) return 64;
    std::unique_ptr<MemoryStream> st(new MemoryStream());
    char                         *buf = NULL;
    size_t                        cap = 0;
    while (getline(&buf, &cap, in) > 0)
    {
        char *want = strchr(buf, '\t');        // the specification's answer: stop at the first difference
        if (want)
        {
            *want++ = 0;
            if (char *nl = strchr(want, '\n')) *nl = 0;
        }
        char  *row    = NULL;
        size_t rowlen = 0;
        out           = open_memstream(&row, &rowlen);
        char *p       = strtok(buf, " \n");
        if (!p) return 65;
        const std::string op = p;
        a.clear();
        while ((p = strtok(NULL, " \n"))) a.push_back(p);
        MemoryStream &s = *st;
        if (op == "empty") st.reset(new MemoryStream());
        else if (op == "new")
        {
            auto     d = X(0);
            uint8_t *m = (uint8_t *)malloc(d.size() ? d.size() : 1);
            if (d.size()) memcpy(m, d.data(), d.size());
            st.reset(new MemoryStream(m, d.size()));
            memset(m, 0xEE, d.size());        // the stream owns a copy
            free(m);
        }
        else if (op == "reinit")
        {
            auto d = X(0);
            uint8_t none;
            s.init(d.size() ? d.data() : &none, d.size());
        }
        else if (op == "reinit0") s.init();
        else if (op == "copy") st.reset(new MemoryStream(s));
        else if (op == "assign")
        {
            MemoryStream c;
            c.setReadEndian(MemoryStream::BIG);
            c.setWriteEndian(MemoryStream::BIG);
            c.putUint32(0xFFFFFFFFu);
            c = s;
            s.init();
            s = c;
        }
        else if (op == "fork")
        {
            MemoryStream c(s);
            c.setReadEndian(MemoryStream::BIG);
            c.setWriteEndian(MemoryStream::BIG);
            c.fseek(0, MemoryStream::TOP);
            c.putUint64(0xFFFFFFFFFFFFFFFFull);
            c.putString("other");
        }
        else if (op == "peekat") eu(*(const uint8_t *)s.ptr((MemoryStream::Pointer)U(0)));
        else if (op == "peekcur") eu(*(const uint8_t *)s.ptr());
        else if (op == "bufpush") s.buffer().push_back((uint8_t)U(0));
        else if (op == "bufset") s.buffer()[(size_t)U(0)] = (uint8_t)U(1);
        else if (op == "pokecur") *(uint8_t *)s.ptr() = (uint8_t)U(0);
        else if (op == "zeros")
        {
            std::vector<uint8_t> d((size_t)U(0), 0);
            st.reset(new MemoryStream(d.data(), d.size()));
        }
        else if (op == "pu8") s.putUint8((uint8_t)U(0));
        else if (op == "pi8") s.putInt8((int8_t)I(0));
        else if (op == "pu16") s.putUint16((uint16_t)U(0));
        else if (op == "pi16") s.putInt16((int16_t)I(0));
        else if (op == "pu32") s.putUint32((uint32_t)U(0));
        else if (op == "pi32") s.putInt32((int32_t)I(0));
        else if (op == "pu64") s.putUint64(U(0));
        else if (op == "pi64") s.putInt64(I(0));
        else if (op == "pf")
        {
            uint32_t u = (uint32_t)U(0);
            float    f;
            memcpy(&f, &u, 4);
            s.putFloat(f);
        }
        else if (op == "pd")
        {
            uint64_t u = U(0);
            double   f;
            memcpy(&f, &u, 8);
            s.putDouble(f);
        }
        else if (op == "gu8") eu(s.getUint8());
        else if (op == "gu16") eu(s.getUint16());
        else if (op == "gu32") eu(s.getUint32());
        else if (op == "gu64") eu(s.getUint64());
        else if (op == "gi8") ei(s.getInt8());
        else if (op == "gi16") ei(s.getInt16());
        else if (op == "gi32") ei(s.getInt32());
        else if (op == "gi64") ei(s.getInt64());
        else if (op == "gp32") eu(s.getPointer32());
        else if (op == "gp64") eu(s.getPointer64());
        else if (op == "gf")
        {
            float    f = s.getFloat();
            uint32_t u;
            memcpy(&u, &f, 4);
            eu(u);
        }
        else if (op == "gd")
        {
            double   f = s.getDouble();
            uint64_t u;
            memcpy(&u, &f, 8);
            eu(u);
        }
        else if (op == "setr") s.setReadEndian(I(0) ? MemoryStream::BIG : MemoryStream::LITTLE);
        else if (op == "setw") s.setWriteEndian(I(0) ? MemoryStream::BIG : MemoryStream::LITTLE);
        else if (op == "seektop") ei(s.fseek((int)I(0), MemoryStream::TOP));
        else if (op == "seekcur") ei(s.fseek((int)I(0), MemoryStream::CURRENT));
        else if (op == "seekend") ei(s.fseek((int)I(0), MemoryStream::END));
        else if (op == "seekto") s.seekTo((MemoryStream::Pointer)U(0));
        else if (op == "align") s.align((int)I(0));
        else if (op == "write")
        {
            auto d = X(1);
            eu(s.write(d.data(), d.size()));
        }
        else if (op == "writeat")
        {
            auto d = X(1);
            eu(s.write_at(d.data(), d.size(), (MemoryStream::Pointer)U(2)));
        }
        else if (op == "putat") s.put_at((size_t)U(0), (uint8_t)U(1));
        else if (op == "read" || op == "readat")
        {
            size_t               n = (size_t)U(0);
            std::vector<uint8_t> m((n < 200000 ? n : 200000) + 16, 0xA5);
            size_t               c = (op == "read") ? s.read(m.data(), n) : s.read_at(m.data(), n, (MemoryStream::Pointer)U(1));
            eu(c);
            ex(m.data(), c < n ? c : n);
            for (size_t i = c; i < m.size(); i++)
                if (m[i] != 0xA5)
                {
                    fprintf(out, "overrun ");
                    break;
                }
        }
        else if (op == "getat") eu(s.get_at((size_t)U(0)));
        else if (op == "pp32") eu(s.putPointer32());
        else if (op == "pp64") eu(s.putPointer64());
        else if (op == "adj32") s.adjustPointer32((MemoryStream::Pointer)U(0));
        else if (op == "adj64") s.adjustPointer64((MemoryStream::Pointer)U(0));
        else if (op == "pstr") s.putString(S(1));
        else if (op == "psub") s.putSubstr(S(1), (size_t)U(2));
        else if (op == "gstr" || op == "gsub")
        {
            std::string r = (op == "gstr") ? s.get_string() : s.getSubstr((int)I(0));
            eu(r.size());
            ex((const uint8_t *)r.data(), r.size());
        }
        else
        {
            fprintf(stderr, "unknown op %s\n", op.c_str());
            return 65;
        }
        // observable state after the call
        MemoryStream               &t = *st;
        const std::vector<uint8_t> &b = t.buffer();
        fprintf(out, "| %lld %lld %d %zu ", (long long)t.ftell(), (long long)t.mark(), t.feof() ? 1 : 0, b.size());
        for (size_t i = 0; i < b.size(); i++)
        {
            uint64_t w;
            while (i + 8 <= b.size() && (memcpy(&w, b.data() + i, 8), w == 0)) i += 8;
            if (i < b.size() && b[i]) fprintf(out, "%zu:%d ", i, b[i]);
        }
        fclose(out);
        fprintf(res, "%s\n", row);
        fflush(res);
        const bool differs = want && strcmp(row, want) != 0;
        free(row);
        if (differs) break;
    }
    fclose(res);
    fflush(NULL);
    _exit(0);
    return 0;
}
