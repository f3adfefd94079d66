// Random histories on quickbook's containers, each compared with a plain model after every step.
// usage: containers PART FIRST COUNT SEED    (PART: values mapped tree collector symbols parse glob)
#include <boost/spirit/include/classic_core.hpp>
#include <boost/spirit/include/classic_symbols.hpp>
#include <boost/spirit/include/phoenix1_functions.hpp>
#include <boost/spirit/include/phoenix1_primitives.hpp>
#include <boost/core/invoke_swap.hpp>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include "collector.hpp"
#include "files.hpp"
#include "glob.hpp"
#include "symbols.hpp"
#include "tree.hpp"
#include "values.hpp"
#include "values_parse.hpp"

namespace qb = quickbook;
namespace cl = boost::spirit::classic;
namespace ph = phoenix;
using std::string;
using std::vector;

static std::ostringstream history;
static string part;
static unsigned long long which, steps;
static std::map<string, unsigned long long> counts;

static unsigned long long rs;
static unsigned rnd(unsigned n)
{
    rs += 0x9e3779b97f4a7c15ull;
    unsigned long long z = rs;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return unsigned((z ^ (z >> 31)) % n);
}

static void fail(string const& what)
{
    std::cout << "FAIL " << part << " " << which << "\n" << what << "\nhistory:\n" << history.str() << std::endl;
    std::_Exit(1);
}
#define REQUIRE(x) do { if (!(x)) fail(string("not so: ") + #x); } while (0)
static void step(string const& s)
{
    ++steps;
    ++counts[part + ": " + s.substr(0, s.find(' '))];
    history << s << "\n";
}
template <typename T> static string str(T const& x) { std::ostringstream o; o << x; return o.str(); }

static string text(unsigned max, char const* chars = "ab \n1<&;\t")
{
    string s;
    for (unsigned n = rnd(max + 1); n; --n) s += chars[rnd(std::strlen(chars))];
    return s;
}

// ------------------------------------------------------------------------------------------------ values

struct Model;
typedef std::shared_ptr<Model const> M;
enum Kind { EMPTY, INT, ENC, QBK, ENCQBK, LIST };
struct Model
{
    Kind kind; int tag; int i; string s; qb::file* f; std::size_t b, e; vector<M> kids;
    Model(Kind k, int t) : kind(k), tag(t), i(0), f(0), b(0), e(0) {}
};

static std::size_t size_of(M const& m)
{
    std::size_t n = 1;
    for (std::size_t k = 0; k < m->kids.size(); ++k) n += size_of(m->kids[k]);
    return n;
}
static string show(M const& m)
{
    std::ostringstream o;
    o << "efsqxl"[m->kind] << m->tag;
    if (m->kind == INT) o << '=' << m->i;
    if (m->kind == ENC || m->kind == ENCQBK) o << '"' << m->s << '"';
    if (m->f) o << '@' << m->f->path.string() << ':' << m->b << '-' << m->e;
    if (m->kind == LIST) {
        o << '(';
        for (std::size_t k = 0; k < m->kids.size(); ++k) o << (k ? " " : "") << show(m->kids[k]);
        o << ')';
    }
    return o.str();
}

template <typename F> static bool throws(F f)
{
    try { f(); return false; } catch (qb::value_error&) { return true; }
}

template <typename V> static void compare(V const& v, M const& m)
{
    bool errors = rnd(12) == 0;       // (exceptions are slow)
    bool enc = m->kind == INT || m->kind == ENC || m->kind == ENCQBK, q = m->f != 0;
    if (v.get_tag() != m->tag) fail("tag " + str(v.get_tag()) + " expected in " + show(m));
    if (v.check() != (m->kind != EMPTY)) fail("check() of " + show(m));
    if (v.is_list() != (m->kind == LIST)) fail("is_list() of " + show(m));
    if (v.is_encoded() != enc) fail("is_encoded() of " + show(m));
    bool empty = m->kind == EMPTY || (m->kind == LIST && m->kids.empty()) || (m->kind == QBK && m->b == m->e) ||
        ((m->kind == ENC || m->kind == ENCQBK) && m->s.empty());
    if (v.empty() != empty) fail("empty() of " + show(m));
    if (m->kind == INT) { if (v.get_int() != m->i) fail("get_int() of " + show(m)); }
    else if (errors && !throws([&] { v.get_int(); })) fail("get_int() is an error for " + show(m));
    if (enc) {
        if (v.get_encoded() != (m->kind == INT ? str(m->i) : m->s)) fail("get_encoded() of " + show(m) + " is " + v.get_encoded());
    }
    else if (errors && !throws([&] { v.get_encoded(); })) fail("get_encoded() is an error for " + show(m));
    if (q) {
        if (v.get_file().get() != m->f) fail("get_file() of " + show(m));
        if (v.get_position() != m->f->source().begin() + m->b) fail("get_position() of " + show(m));
        if (v.get_quickbook() != m->f->source().substr(m->b, m->e - m->b)) fail("get_quickbook() of " + show(m));
    }
    else if (errors) {
        if (!throws([&] { v.get_file(); }) || !throws([&] { v.get_position(); }) || !throws([&] { v.get_quickbook(); }))
            fail("positions are an error for " + show(m));
    }
    if (m->kind == LIST) {
        std::size_t k = 0;
        for (qb::value::iterator i = v.begin(), e = v.end(); !(i == e); ++i, ++k) {
            if (k == m->kids.size()) fail("elements after the last of " + show(m));
            if (k % 2) compare(*i, m->kids[k]);
            else { if (i->get_tag() != m->kids[k]->tag) fail("tag through -> in " + show(m)); compare(qb::value(*i), m->kids[k]); }
        }
        if (k != m->kids.size()) fail("elements missing from " + show(m) + ": only " + str(k));
    }
    else if (errors && !throws([&] { v.begin(); })) fail("begin() is an error for " + show(m));
    ++counts["values: values compared"];
}

struct MBuilder
{
    struct Level { int tag; vector<M> items; };
    vector<Level> levels;
    MBuilder() : levels(1) { levels[0].tag = 0; }
    Level& top() { return levels.back(); }
};

struct Builder { qb::value_builder b; MBuilder m; };

static bool m_less(M const& a, M const& b) { return a->tag < b->tag; }

static void values()
{
    vector<qb::file_ptr> files;
    for (int k = 0; k < 2; ++k) files.push_back(new qb::file("f" + str(k), text(30), 106));
    vector<std::pair<qb::value, M> > slots(6, std::make_pair(qb::value(), std::make_shared<Model const>(EMPTY, 0)));
    vector<std::unique_ptr<Builder> > builders;
    for (int k = 0; k < 3; ++k) builders.push_back(std::unique_ptr<Builder>(new Builder));
    struct C { std::unique_ptr<qb::value_consumer> c; M m; std::size_t pos; } con = {nullptr, M(), 0};

    for (unsigned n = 5 + rnd(60); n; --n) {
        unsigned s = rnd(slots.size()), t = rnd(slots.size()), bi = rnd(builders.size());
        Builder& b = *builders[bi];
        string S = str(s), T = str(t), B = str(bi);
        M const& ms = slots[s].second;
        switch (rnd(24)) {
        case 0: case 1: case 2: {
            int tag = rnd(3) ? 1 + rnd(4) : 0;
            std::shared_ptr<Model> m(new Model(Kind(rnd(5)), tag));
            qb::value v;
            if (m->kind >= QBK) {
                qb::file_ptr f = files[rnd(files.size())];
                m->f = f.get();
                m->b = rnd(f->source().size() + 1);
                m->e = m->b + rnd(f->source().size() - m->b + 1);
            }
            qb::string_iterator x = m->f ? m->f->source().begin() : qb::string_iterator();
            if (m->kind == INT) m->i = rnd(2) ? rnd(100) : -int(rnd(2000000000));
            if (m->kind == ENC || m->kind == ENCQBK) m->s = text(rnd(3) ? 6 : 60);
            switch (m->kind) {
            case EMPTY: v = qb::empty_value(tag); break;
            case INT: v = qb::int_value(m->i, tag); break;
            case ENC: v = qb::encoded_value(m->s, tag); break;
            case QBK: v = qb::qbk_value(m->f, x + m->b, x + m->e, tag); break;
            default: v = qb::encoded_qbk_value(m->f, x + m->b, x + m->e, m->s, tag);
            }
            step("new " + S + " " + show(m));
            slots[s] = std::make_pair(v, M(m));
            break;
        }
        case 3: step("assign " + S + " = " + T); slots[s].first = slots[t].first; slots[s].second = slots[t].second; break;
        case 4: step("swap " + S + " " + T); if (s != t) { slots[s].first.swap(slots[t].first); std::swap(slots[s].second, slots[t].second); } break;
        case 5: step("copy " + T); { qb::value v(slots[t].first); qb::value w(v); v = qb::value(); compare(w, slots[t].second); v = w; compare(v, slots[t].second); } break;
        case 6: case 7: case 8: case 9: {
            if (size_of(ms) > 60 || b.m.top().items.size() > 40) break;
            step("insert " + B + " " + S);
            b.b.insert(slots[s].first);
            b.m.top().items.push_back(ms);
            break;
        }
        case 10: {
            if (ms->kind != LIST || size_of(ms) > 60 || b.m.top().items.size() > 40) break;
            step("extend " + B + " " + S);
            b.b.extend(slots[s].first);
            b.m.top().items.insert(b.m.top().items.end(), ms->kids.begin(), ms->kids.end());
            break;
        }
        case 11: case 12: {
            if (b.m.levels.size() > 6) break;
            int tag = rnd(5);
            step("start_list " + B + " " + str(tag));
            if (tag || rnd(2)) b.b.start_list(tag); else b.b.start_list();
            b.m.levels.push_back(MBuilder::Level()); b.m.top().tag = tag;
            break;
        }
        case 13: case 14: {
            if (b.m.levels.size() < 2) break;
            step("finish_list " + B);
            b.b.finish_list();
            std::shared_ptr<Model> m(new Model(LIST, b.m.top().tag));
            m->kids = b.m.top().items;
            b.m.levels.pop_back();
            b.m.top().items.push_back(m);
            break;
        }
        case 15: {
            if (b.m.levels.size() < 2) break;
            bool r = rnd(2);
            step(string(r ? "restore " : "clear_list ") + B);
            if (r) b.b.restore(); else b.b.clear_list();
            b.m.levels.pop_back();
            break;
        }
        case 16: if (b.m.levels.size() > 6) break; step("save " + B); b.b.save(); b.m.levels.push_back(MBuilder::Level()); b.m.top().tag = 0; break;
        case 17: case 18:
            if (!rnd(12)) {
                step("insert_many " + B);
                for (unsigned k = rnd(300); k; --k) {
                    std::shared_ptr<Model> m(new Model(INT, rnd(30)));
                    m->i = k;
                    b.b.insert(qb::int_value(k, m->tag));
                    b.m.top().items.push_back(m);
                }
            }
            step("sort_list " + B); b.b.sort_list(); std::stable_sort(b.m.top().items.begin(), b.m.top().items.end(), m_less); break;
        case 19: case 20: {
            step("release " + B + " to " + S);
            std::shared_ptr<Model> m(new Model(LIST, b.m.top().tag));
            m->kids.swap(b.m.top().items);
            slots[s] = std::make_pair(b.b.release(), M(m));
            break;
        }
        case 21: {
            unsigned o = rnd(builders.size());
            step("swap_builders " + B + " " + str(o));
            if (o != bi) { b.b.swap(builders[o]->b); std::swap(b.m, builders[o]->m); }
            break;
        }
        case 22: {
            if (ms->kind != LIST || ms->kids.empty()) break;
            std::size_t k = rnd(ms->kids.size());
            step("child " + T + " = " + S + "[" + str(k) + "]");
            qb::value::iterator i = slots[s].first.begin();
            for (std::size_t j = 0; j < k; ++j) ++i;
            M m = ms->kids[k];
            if (rnd(2)) slots[t].first = *i;
            else { qb::value v(*i); slots[t].first = v; }
            slots[t].second = m;
            break;
        }
        case 23: {
            if (!con.c) {
                if (ms->kind != LIST) break;
                step("consumer of " + S);
                con.c.reset(new qb::value_consumer(slots[s].first));
                con.m = ms; con.pos = 0;
            }
            for (unsigned k = rnd(4) + 1; k; --k) {
                bool more = con.pos < con.m->kids.size();
                int tag = rnd(5);
                bool is = more && con.m->kids[con.pos]->tag == tag;
                if (con.c->check() != more) fail("check()");
                if (con.c->check(tag) != is) fail("check(tag)");
                if (throws([&] { con.c->finish(); }) != more) fail("finish()");
                switch (rnd(5)) {
                case 0:
                    step("consume");
                    if (!more) { if (!throws([&] { con.c->consume(); })) fail("consume() past the end"); }
                    else compare(qb::value(con.c->consume()), con.m->kids[con.pos++]);
                    break;
                case 1:
                    step("consume " + str(tag));
                    if (!is) { if (!throws([&] { con.c->consume(tag); })) fail("consume(tag) of another tag"); }
                    else compare(con.c->consume(tag), con.m->kids[con.pos++]);
                    break;
                case 2: {
                    step("optional_consume");
                    qb::value v = con.c->optional_consume();
                    if (more) compare(v, con.m->kids[con.pos++]); else REQUIRE(!v.check());
                    break;
                }
                case 3: {
                    step("optional_consume " + str(tag));
                    qb::value v = con.c->optional_consume(tag);
                    if (is) compare(v, con.m->kids[con.pos++]); else REQUIRE(!v.check());
                    break;
                }
                case 4: {
                    if (rnd(4)) break;
                    step("consume_rest");
                    for (qb::value_consumer::iterator i = con.c->begin(); !(i == con.c->end()); ++i) {
                        if (con.pos == con.m->kids.size()) fail("consumer goes past the end");
                        REQUIRE(i->get_tag() == con.m->kids[con.pos]->tag);
                        compare(*i, con.m->kids[con.pos++]);
                    }
                    REQUIRE(con.pos == con.m->kids.size());
                    break;
                }
                }
            }
            if (!rnd(3)) con.c.reset();
            break;
        }
        }
        if (n == 1 || rnd(3) == 0)
            for (std::size_t k = 0; k < slots.size(); ++k) compare(slots[k].first, slots[k].second);
        for (std::size_t k = 0; k < builders.size(); ++k)
            if (builders[k]->b.empty() != builders[k]->m.top().items.empty()) fail("empty() of builder " + str(k));
        if (!rnd(8)) {
            // what the builders contain, through copies of them
            for (std::size_t k = 0; k < builders.size(); ++k) {
                std::shared_ptr<Model> m(new Model(LIST, builders[k]->m.top().tag));
                m->kids = builders[k]->m.top().items;
                qb::value v = builders[k]->b.release();
                compare(v, m);
                builders[k]->b.extend(v);
            }
        }
        // equality of things with the same content
        unsigned x = rnd(slots.size()), y = rnd(slots.size());
        string a = show(slots[x].second), c = show(slots[y].second);
        if (a == c && !(slots[x].first == slots[y].first)) fail("equality of " + a);
        if (slots[x].second->kind == LIST && slots[y].second->kind == LIST) {
            vector<M> const &p = slots[x].second->kids, &q = slots[y].second->kids;
            if (p.size() != q.size() && slots[x].first == slots[y].first) fail("lists of different lengths are equal: " + a + " " + c);
        }
    }
}

// ------------------------------------------------------------------------------------------------ parse results

struct Acc : cl::grammar<Acc>
{
    qb::value_parser& v;
    explicit Acc(qb::value_parser& v_) : v(v_) {}
    template <typename S> struct definition
    {
        cl::rule<S> item, top, round, angle, word;
        definition(Acc const& self)
        {
            qb::value_parser& v = self.v;
            // every bracket is tried as three kinds of thing before the right one is found
            top = *item;
            item = round | angle | word;
            round =
                v.list(1)[cl::ch_p('(') >> *item >> ')']
                | v.list(2)[cl::ch_p('(') >> *item >> ';' >> cl::eps_p[v.sort()] >> ')'];
            angle = v.list()[cl::ch_p('<') >> word[v.entry(ph::arg1, ph::arg2, 7)] >> '>']
                | v.save()[cl::ch_p('<') >> *item >> '!']
                | v.list(3)[cl::ch_p('<') >> cl::eps_p[v.entry(5, 6)] >> *item >> '>'];
            word = (+cl::alpha_p)[v.entry(ph::arg1, ph::arg2, 4)] | (cl::digit_p >> cl::eps_p)[v.entry(ph::arg1, ph::arg2, 3)];
        }
        cl::rule<S> const& start() const { return top; }
    };
};

// a recursive descent parser of the same language
struct Rd
{
    string const& s; qb::file* f; std::size_t p;
    typedef vector<M> L;
    M qbk(std::size_t b, std::size_t e, int tag) { std::shared_ptr<Model> m(new Model(QBK, tag)); m->f = f; m->b = b; m->e = e; return m; }
    bool ch(char c) { if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    bool many(L& out) { while (item(out)) {} return true; }
    bool word(L& out)
    {
        std::size_t b = p;
        while (p < s.size() && std::isalpha((unsigned char)s[p])) ++p;
        if (p > b) { out.push_back(qbk(b, p, 4)); return true; }
        if (p < s.size() && std::isdigit((unsigned char)s[p])) { ++p; out.push_back(qbk(b, p, 3)); return true; }
        return false;
    }
    void list(L& out, int tag, L const& in) { std::shared_ptr<Model> m(new Model(LIST, tag)); m->kids = in; out.push_back(m); }
    bool item(L& out)
    {
        std::size_t b = p;
        { L in; if (ch('(') && many(in) && ch(')')) { list(out, 1, in); return true; } p = b; }
        { L in; if (ch('(') && many(in) && ch(';')) { L so = in; std::stable_sort(so.begin(), so.end(), m_less); if (ch(')')) { list(out, 2, so); return true; } } p = b; }
        { L in; if (ch('<')) { std::size_t w = p; if (word(in)) { in.push_back(qbk(w, p, 7)); if (ch('>')) { list(out, 0, in); return true; } } } p = b; }
        { L in; if (ch('<') && many(in) && ch('!')) { return true; } p = b; }   // found, but what it found is dropped
        { L in; if (ch('<')) { std::shared_ptr<Model> m(new Model(INT, 6)); m->i = 5; in.push_back(m); if (many(in) && ch('>')) { list(out, 3, in); return true; } } p = b; }
        return word(out);
    }
};

static string bracketed(unsigned depth)
{
    string s;
    for (unsigned n = rnd(4); n; --n) {
        unsigned k = rnd(depth ? 8 : 3);
        if (k == 0) s += "ab";
        else if (k == 1) s += "x";
        else if (k == 2) s += "7";
        else if (k < 5) s += "(" + bracketed(depth - 1) + (rnd(2) ? ")" : ";)");
        else s += "<" + bracketed(depth - 1) + (rnd(3) ? ">" : "!");
    }
    return s;
}

static void parse()
{
    for (int n = 0; n < 4; ++n) {
        string s = bracketed(3);
        if (s.size() > 40) s.resize(rnd(40));
        if (!s.empty() && !rnd(3)) s[rnd(s.size())] = "()<>;!a"[rnd(7)];
        step("parse " + s);
        qb::file_ptr f = new qb::file("f", s, 106), current = f;
        qb::value_parser v(&current);
        unsigned pre = rnd(3);
        for (unsigned k = 0; k < pre; ++k) v.builder.insert(qb::int_value(k, 1));
        qb::parse_iterator b(f->source().begin()), e(f->source().end());
        cl::parse_info<qb::parse_iterator> info = cl::parse(b, e, Acc(v));
        Rd rd = {s, f.get(), 0};
        std::shared_ptr<Model> m(new Model(LIST, 0));
        for (unsigned k = 0; k < pre; ++k) { std::shared_ptr<Model> i(new Model(INT, 1)); i->i = k; m->kids.push_back(i); }
        rd.many(m->kids);
        if (std::size_t(info.stop.base() - f->source().begin()) != rd.p) fail("read to " + str(info.stop.base() - f->source().begin()) + ", expected " + str(rd.p));
        compare(v.release(), m);
    }
}

// ------------------------------------------------------------------------------------------------ mapped files

struct Pos { std::size_t pos; bool exact; };     // not exact: only the line
struct Mapped
{
    qb::mapped_file_builder b;
    string text;
    vector<Pos> pos;
    Pos last;
    bool any;
    Mapped() : any(false) {}
};

static qb::file_position where(string const& s, std::size_t p)
{
    qb::file_position r;
    for (std::size_t k = 0; k < p; ++k)
        if (s[k] == '\n') { ++r.line; r.column = 1; } else ++r.column;
    return r;
}

static string indentation(unsigned style, unsigned width)
{
    switch (style) {
    case 0: return string(width, ' ');
    case 1: return string(width / 4, '\t') + string(width % 4, ' ');
    default: { string s; while (width >= 4) { if (rnd(2)) s += "    "; else s += string(rnd(4), ' ') + "\t"; width -= 4; } return s + string(width, ' '); }
    }
}

static std::size_t columns(string const& s)
{
    std::size_t n = 0;
    for (std::size_t k = 0; k < s.size(); ++k) n = s[k] == '\t' ? n - n % 4 + 4 : n + 1;
    return n;
}

static void unindent(string const& s, std::size_t from, Mapped& m)
{
    struct Line { std::size_t start, content, end; };
    vector<Line> lines;
    for (std::size_t p = 0;;) {
        std::size_t e = s.find('\n', p);
        if (e == string::npos) e = s.size();
        std::size_t c = p;
        while (c < e && (s[c] == ' ' || s[c] == '\t')) ++c;
        Line l = {p, c, e};
        lines.push_back(l);
        if (e == s.size()) break;
        p = e + 1;
    }
    while (!lines.empty() && lines[0].content == lines[0].end) lines.erase(lines.begin());
    if (lines.empty()) return;
    std::size_t width = string::npos, cols = string::npos;
    for (std::size_t k = 0; k < lines.size(); ++k) {
        if (lines[k].content == lines[k].end) continue;
        width = std::min(width, lines[k].content - lines[k].start);
        cols = std::min(cols, columns(s.substr(lines[k].start, lines[k].content - lines[k].start)));
    }
    bool mixed = false;
    for (std::size_t k = 0; k < lines.size(); ++k)
        if (lines[k].content < lines[k].end && s.compare(lines[k].start, width, s, lines[0].start, width)) mixed = true;
    for (std::size_t k = 0; k < lines.size(); ++k) {
        Line const& l = lines[k];
        std::size_t indent;
        if (mixed) {
            std::size_t c = columns(s.substr(l.start, l.content - l.start));
            indent = c > cols ? c - cols : 0;
            m.text.append(indent, ' ');
        }
        else {
            std::size_t cut = std::min(width, l.content - l.start);
            indent = l.content - l.start - cut;
            m.text.append(s, l.start + cut, indent);
        }
        for (std::size_t j = 0; j < indent; ++j) { Pos p = {from + l.start, false}; m.pos.push_back(p); }
        for (std::size_t j = l.content; j < l.end; ++j) { Pos p = {from + j, true}; m.pos.push_back(p); }
        m.text.append(s, l.content, l.end - l.content);
        Pos p = {from + l.end, true};
        if (k + 1 < lines.size()) { m.text += '\n'; m.pos.push_back(p); }
        m.last = p;
    }
    m.any = true;
}

static string code()
{
    unsigned style = rnd(4);
    string s;
    unsigned base = rnd(9);
    for (unsigned n = 1 + rnd(6); n; --n) {
        if (!rnd(5)) { s += "\n"; continue; }
        s += indentation(style == 3 ? rnd(3) : style, base + (rnd(2) ? rnd(6) : 0));
        s += char('a' + rnd(5));
        s += text(8, "ab  ;<\t");
        s += "z";
        s += "\n";
    }
    if (rnd(2) && s.size() > 1 && s[s.size() - 1] == '\n') s.resize(s.size() - 1);
    return s;
}

static void mapped()
{
    string original;
    vector<std::pair<std::size_t, std::size_t> > blocks;
    for (unsigned n = 1 + rnd(4); n; --n) {
        original += text(rnd(8) ? 20 : 400, "ab \nc");
        if (!original.empty() && original[original.size() - 1] != '\n') original += '\n';
        string c = code();
        blocks.push_back(std::make_pair(original.size(), c.size()));
        original += c;
        if (rnd(2)) original += "\n";
    }
    qb::file_ptr f = new qb::file("orig", original, 106);
    history << "original: " << original << "\n--\n";
    vector<std::unique_ptr<Mapped> > ms;
    for (int k = 0; k < 3; ++k) { ms.push_back(std::unique_ptr<Mapped>(new Mapped)); ms.back()->b.start(f); }
    qb::string_view src = f->source();
    for (unsigned n = 3 + rnd(12); n; --n) {
        unsigned k = rnd(ms.size());
        Mapped& m = *ms[k];
        switch (rnd(7)) {
        case 0: case 1: {
            std::size_t b = rnd(src.size() + 1), e = b + rnd(std::min<std::size_t>(src.size() - b, rnd(6) ? 30 : 1000) + 1);
            step("add " + str(k) + " " + str(b) + "-" + str(e));
            m.b.add(qb::string_view(src.data() + b, e - b));
            m.text.append(original, b, e - b);
            for (std::size_t j = b; j < e; ++j) { Pos p = {j, true}; m.pos.push_back(p); }
            Pos p = {e, true}; m.last = p; m.any = true;
            break;
        }
        case 2: {
            std::size_t b = rnd(src.size() + 1);
            string t = text(5);
            step("add_at_pos " + str(k) + " " + str(b) + " " + t);
            m.b.add_at_pos(t, src.begin() + b);
            m.text += t;
            Pos p = {b, true};
            m.pos.insert(m.pos.end(), t.size(), p);
            m.last = p; m.any = true;
            break;
        }
        case 3: case 4: {
            std::pair<std::size_t, std::size_t> bl = blocks[rnd(blocks.size())];
            step("unindent_and_add " + str(k) + " " + str(bl.first) + "+" + str(bl.second));
            m.b.unindent_and_add(qb::string_view(src.data() + bl.first, bl.second));
            unindent(original.substr(bl.first, bl.second), bl.first, m);
            break;
        }
        case 5: {
            unsigned o = rnd(ms.size());
            if (o == k || m.text.size() > 600) break;
            Mapped& x = *ms[o];
            std::size_t b = 0, e = x.text.size();
            if (rnd(3)) { b = rnd(x.text.size() + 1); e = b + rnd(x.text.size() - b + 1); }
            step("add_part " + str(k) + " of " + str(o) + " " + str(b) + "-" + str(e));
            if (b == 0 && e == x.text.size() && rnd(2)) m.b.add(x.b); else m.b.add(x.b, b, e);
            if (b == e) break;
            m.text.append(x.text, b, e - b);
            bool white = true;         // white space at the start of a section counts as indentation
            for (std::size_t j = b; j < e; ++j) {
                white = white && (x.text[j] == ' ' || x.text[j] == '\t');
                Pos p = x.pos[j];
                if (white) p.exact = false;
                m.pos.push_back(p);
            }
            m.last.exact = false; m.any = false;
            break;
        }
        case 6: {
            if (rnd(4)) break;
            step("clear_or_release " + str(k));
            if (rnd(2)) { m.b.clear(); }
            else {
                qb::file_ptr g = m.b.release();
                REQUIRE(g->source() == qb::string_view(m.text));
                for (std::size_t j = 0; j < m.text.size(); ++j) {
                    qb::file_position p = g->position_of(g->source().begin() + j), w = where(original, m.pos[j].pos);
                    if (p.line != w.line || (m.pos[j].exact && p.column != w.column))
                        fail("character " + str(j) + " of: " + m.text + "\nis at " + str(p) + ", expected " + str(w) + (m.pos[j].exact ? "" : " (line only)"));
                    ++counts["mapped: positions compared"];
                }
                if (m.any && m.last.exact) {
                    qb::file_position p = g->position_of(g->source().begin() + m.text.size()), w = where(original, m.last.pos);
                    if (p.line != w.line) fail("the end of: " + m.text + "\nis at " + str(p) + ", expected " + str(w));
                }
                REQUIRE(g->version() == 106 && g->path == f->path);
            }
            m.b.start(f); m.text.clear(); m.pos.clear(); m.any = false;
            break;
        }
        }
        REQUIRE(m.b.empty() == m.text.empty());
        REQUIRE(m.b.get_pos() == m.text.size());
    }
    for (std::size_t k = 0; k < ms.size(); ++k) {
        Mapped& m = *ms[k];
        qb::file_ptr g = m.b.release();
        if (g->source() != qb::string_view(m.text)) fail("text is: " + g->source().to_s() + "\nexpected: " + m.text);
        for (std::size_t j = 0; j < m.text.size(); ++j) {
            qb::file_position p = g->position_of(g->source().begin() + j), w = where(original, m.pos[j].pos);
            if (p.line != w.line || (m.pos[j].exact && p.column != w.column))
                fail("character " + str(j) + " of: " + m.text + "\nis at " + str(p) + ", expected " + str(w) + (m.pos[j].exact ? "" : " (line only)"));
            ++counts["mapped: positions compared"];
        }
    }
}

// ------------------------------------------------------------------------------------------------ trees

struct Node : qb::detail::tree_node<Node>
{
    static long live;
    int id;
    explicit Node(int i) : id(i) { ++live; }
    ~Node() { --live; }
};
long Node::live = 0;
struct MNode { int id; MNode* parent; vector<MNode*> kids; };

typedef qb::detail::tree<Node> Tree;
typedef qb::detail::tree_builder<Node> TBuilder;

static void check_nodes(Node* first, Node* parent, vector<MNode*> const& kids, std::map<int, Node*>& found)
{
    std::size_t k = 0;
    Node* prev = 0;
    for (Node* n = first; n; prev = n, n = n->next(), ++k) {
        if (k == kids.size()) fail("more nodes than expected");
        if (n->id != kids[k]->id) fail("node " + str(n->id) + ", expected " + str(kids[k]->id));
        if (n->parent() != parent) fail("parent of " + str(n->id));
        if (n->prev() != prev) fail("prev of " + str(n->id));
        found[n->id] = n;
        check_nodes(n->children(), n, kids[k]->kids, found);
    }
    if (k != kids.size()) fail("nodes missing: " + str(k) + " of " + str(kids.size()));
}
static void collect(vector<MNode*> const& v, vector<MNode*>& out)
{
    for (std::size_t k = 0; k < v.size(); ++k) { out.push_back(v[k]); collect(v[k]->kids, out); }
}

static void trees()
{
    std::vector<std::unique_ptr<MNode> > pool;
    int next = 0;
    struct T { Tree t; vector<MNode*> roots; };
    vector<std::unique_ptr<T> > ts;
    long before = Node::live;
    for (unsigned n = 3 + rnd(40); n; --n) {
        unsigned what = ts.empty() ? 0 : rnd(8);
        if (what < 2) {
            step("build");
            TBuilder b;
            std::unique_ptr<T> t(new T);
            MNode* parent = 0;
            for (unsigned k = rnd(12); k || t->roots.empty(); k = k ? k - 1 : 0) {
                vector<MNode*>& level = parent ? parent->kids : t->roots;
                if (!level.empty() && level.back()->kids.empty() && rnd(3) == 0) { history << " start_children\n"; b.start_children(); parent = level.back(); continue; }
                if (parent && rnd(3) == 0) { history << " end_children\n"; b.end_children(); parent = parent->parent; continue; }
                if (!parent && !level.empty() && rnd(3)) continue;
                pool.push_back(std::unique_ptr<MNode>(new MNode()));
                MNode* m = pool.back().get();
                m->id = next++; m->parent = parent;
                level.push_back(m);
                history << " add_element " << m->id << "\n";
                b.add_element(new Node(m->id));
                REQUIRE(b.current()->id == m->id);
                REQUIRE(parent ? b.parent() && b.parent()->id == parent->id : !b.parent());
                REQUIRE(b.root() && b.root()->id == t->roots[0]->id);
            }
            switch (rnd(3)) {
            case 0: t->t = b.release(); REQUIRE(!b.root() && !b.current() && !b.parent()); break;
            case 1: { TBuilder c(std::move(b)); REQUIRE(!b.root()); t->t = c.release(); break; }
            default: { Tree x(b.release()); t->t = std::move(x); REQUIRE(!x.root()); }
            }
            std::map<int, Node*> found;
            check_nodes(t->t.root(), 0, t->roots, found);
            if (rnd(6)) ts.push_back(std::move(t));
            else step("drop");
        }
        else {
            unsigned a = rnd(ts.size()), b = rnd(ts.size());
            vector<MNode*> all;
            collect(ts[a]->roots, all);
            std::map<int, Node*> nodes;
            check_nodes(ts[a]->t.root(), 0, ts[a]->roots, nodes);
            if (all.empty()) continue;
            MNode* m = all[rnd(all.size())];
            Node* node = nodes[m->id];
            if (what < 4) {
                step("extract " + str(m->id));
                std::unique_ptr<T> t(new T);
                t->t = ts[a]->t.extract(node);
                vector<MNode*>& level = m->parent ? m->parent->kids : ts[a]->roots;
                for (std::size_t k = 0; k < level.size(); ++k) if (level[k] == m) { level.erase(level.begin() + k); break; }
                m->parent = 0;
                t->roots.push_back(m);
                ts.push_back(std::move(t));
            }
            else if (a != b && ts[b]->roots.size() == 1) {
                MNode* r = ts[b]->roots[0];
                static char const* names[] = {"add_first_child ", "add_last_child ", "add_before ", "add_after "};
                unsigned k = rnd(4);
                if (k == 2 && !m->parent) k = 3;
                step(names[k] + str(m->id) + " " + str(r->id));
                switch (k) {
                case 0: node->add_first_child(std::move(ts[b]->t)); m->kids.insert(m->kids.begin(), r); r->parent = m; break;
                case 1: node->add_last_child(std::move(ts[b]->t)); m->kids.push_back(r); r->parent = m; break;
                default: {
                    if (k == 2) node->add_before(std::move(ts[b]->t)); else node->add_after(std::move(ts[b]->t));
                    vector<MNode*>& level = m->parent ? m->parent->kids : ts[a]->roots;
                    for (std::size_t j = 0; j < level.size(); ++j)
                        if (level[j] == m) { level.insert(level.begin() + j + (k == 3), r); break; }
                    r->parent = m->parent;
                }
                }
                ts[b]->roots.clear();
                REQUIRE(!ts[b]->t.root());
            }
        }
        std::size_t count = 0;
        for (std::size_t k = 0; k < ts.size(); ++k) {
            std::map<int, Node*> found;
            check_nodes(ts[k]->t.root(), 0, ts[k]->roots, found);
            count += found.size();
        }
        if (Node::live - before != long(count)) fail("nodes alive: " + str(Node::live - before) + ", in trees: " + str(count));
        counts["tree: nodes compared"] += count;
    }
    ts.clear();
    if (Node::live != before) fail("nodes left after the trees: " + str(Node::live - before));
}

// ------------------------------------------------------------------------------------------------ collectors

static void collectors()
{
    qb::string_stream streams[2];
    string mstreams[2];
    {
        qb::collector own, c0(streams[0]), c1(streams[1]);
        qb::collector* cs[3] = {&own, &c0, &c1};
        vector<string> m[3];
        for (int k = 0; k < 3; ++k) m[k].push_back("");
        for (unsigned n = 5 + rnd(50); n; --n) {
            unsigned k = rnd(3);
            qb::collector& c = *cs[k];
            string s = text(rnd(10) ? 6 : 300);
            switch (rnd(11)) {
            case 0: step("push " + str(k)); c.push(); m[k].push_back(""); break;
            case 1: if (m[k].size() > 1) { step("pop " + str(k)); c.pop(); m[k].pop_back(); } break;
            case 2: case 3: step("string " + str(k) + " " + s); c << s; m[k].back() += s; break;
            case 4: step("chars " + str(k) + " " + s); c << s.c_str(); m[k].back() += s; break;
            case 5: { int x = rnd(100000); step("int " + str(k) + " " + str(x)); c << x; m[k].back() += str(x); break; }
            case 6: step("char " + str(k)); c << 'q'; m[k].back() += 'q'; break;
            case 7: step("append " + str(k) + " " + s); c.append(s); m[k].back() += s; break;
            case 8: step("swap " + str(k) + " " + s); { string t = s; c.swap(t); if (t != m[k].back()) fail("swapped out: " + t); m[k].back() = s; } break;
            case 9: if (rnd(2)) { step("clear " + str(k)); if (rnd(2)) { REQUIRE(c.str() == m[k].back()); } c.clear(); m[k].back().clear(); } break;
            case 10: { unsigned o = 1 + rnd(2); if (m[o].size() == 1) { step("get " + str(o)); streams[o - 1].get() << "G" << s; m[o].back() += "G" + s; } break; }
            }
            if (rnd(3))
                for (int j = 0; j < 3; ++j)
                    if (cs[j]->str() != m[j].back()) fail("collector " + str(j) + " has: " + cs[j]->str() + "\nexpected: " + m[j].back());
            if (!rnd(10)) { qb::string_stream copy(streams[0]); if (m[1].size() == 1 && copy.str() != m[1].back()) fail("a copy of the stream"); }
        }
        for (int k = 0; k < 3; ++k)
            while (m[k].size() > 1) {
                if (cs[k]->str() != m[k].back()) fail("collector " + str(k) + " has: " + cs[k]->str() + "\nexpected: " + m[k].back());
                cs[k]->pop(); m[k].pop_back();
            }
        for (int k = 0; k < 3; ++k)
            if (cs[k]->str() != m[k].back()) fail("collector " + str(k) + " has: " + cs[k]->str() + "\nexpected: " + m[k].back());
        for (int k = 0; k < 2; ++k) mstreams[k] = m[k + 1].back();
    }
    for (int k = 0; k < 2; ++k) if (streams[k].str() != mstreams[k]) fail("stream after its collector: " + streams[k].str() + "\nexpected: " + mstreams[k]);
}

// ------------------------------------------------------------------------------------------------ symbol tables

static void symbols()
{
    struct S { qb::string_symbols s; std::map<string, string> m; };
    vector<std::unique_ptr<S> > ss;
    for (int k = 0; k < 3; ++k) ss.push_back(std::unique_ptr<S>(new S));
    char const* chars = rnd(3) ? "abc" : "a\x01_Z~\xc3\xa9";
    for (unsigned n = 5 + rnd(60); n; --n) {
        unsigned k = rnd(ss.size()), o = rnd(ss.size());
        switch (rnd(7)) {
        case 0: case 1: case 2: {
            string key = text(4, chars), v = text(5);
            if (key.empty()) break;
            step("add " + str(k) + " " + key + " " + v);
            ss[k]->s.add(key.begin(), key.end(), v);
            ss[k]->m[key] = v;
            break;
        }
        case 3: step("assign " + str(k) + " = " + str(o)); ss[k]->s = ss[o]->s; ss[k]->m = ss[o]->m; break;
        case 4: {
            step("copy " + str(o) + " over " + str(k));
            if (k == o) break;
            S* x = new S(*ss[o]);
            ss[k].reset(x);
            break;
        }
        default: {
            string s = text(8, chars);
            string best;
            bool hit = false;
            for (std::size_t j = 1; j <= s.size(); ++j)
                if (ss[k]->m.count(s.substr(0, j))) { best = s.substr(0, j); hit = true; }
            step("find " + str(k) + " " + s);
            string got;
            cl::parse_info<string::const_iterator> info = cl::parse(s.begin(), s.end(), ss[k]->s[([&](string const& v) { got = v; })]);
            if (info.hit != hit) fail(string("found ") + (info.hit ? "something" : "nothing"));
            if (hit && (info.length != best.size() || got != ss[k]->m[best])) fail("found " + got + " of length " + str(info.length));
            if (!hit && info.stop != s.cbegin()) fail("moved without finding anything");
        }
        }
        for (std::size_t j = 0; j < ss.size(); ++j)
            for (std::map<string, string>::iterator i = ss[j]->m.begin(); i != ss[j]->m.end(); ++i) {
                string* p = cl::find(ss[j]->s, i->first.c_str());
                if (!p || *p != i->second) fail("table " + str(j) + " has " + (p ? *p : "nothing") + " for " + i->first);
                ++counts["symbols: entries compared"];
            }
    }
}

// ------------------------------------------------------------------------------------------------ globs

struct G { bool valid, glob; };
// what check_glob says: 0 name, 1 glob, 2 error
static int m_check(string const& p)
{
    bool is = false, ascii = true;
    for (std::size_t k = 0; k < p.size();) {
        if (p[k] >= 0 ? p[k] < 32 : true) ascii = false;
        if (p[k] == '\\') { if (k + 1 == p.size() || p[k + 1] == '\\' || p[k + 1] == '/') return 2; k += 2; }
        else if (p[k] == '[') {
            is = true; ++k;
            if (k < p.size() && p[k] == ']') return 2;
            for (;; ++k) {
                if (k >= p.size()) return 2;
                if (p[k] == ']') break;
                if (p[k] == '[' || p[k] == '/') return 2;
                if (p[k] == '\\') { ++k; if (k == p.size() || p[k] == '\\' || p[k] == '/') return 2; }
            }
            ++k;
        }
        else if (p[k] == ']') return 2;
        else if (p[k] == '*') { is = true; ++k; if (k < p.size() && p[k] == '*') return 2; }
        else { if (p[k] == '?') is = true; ++k; }
    }
    return is && !ascii ? 2 : is;
}

static bool m_match(string const& p, std::size_t i, string const& s, std::size_t j)
{
    if (i == p.size()) return j == s.size();
    if (p[i] == '*') {
        for (std::size_t k = j; k <= s.size(); ++k) if (m_match(p, i + 1, s, k)) return true;
        return false;
    }
    if (j == s.size()) return false;
    if (p[i] == '?') return m_match(p, i + 1, s, j + 1);
    if (p[i] == '\\') return p[i + 1] == s[j] && m_match(p, i + 2, s, j + 1);
    if (p[i] == '[') {
        ++i;
        bool inv = p[i] == '^', hit = false;
        if (inv) ++i;
        while (p[i] != ']') {
            if (p[i] == '\\') ++i;
            unsigned char a = p[i++], b = a, x = s[j];
            if (p[i] == '-' && p[i + 1] != ']') { ++i; if (p[i] == '\\') ++i; b = p[i++]; }
            if (a <= x && x <= b) hit = true;
        }
        return hit != inv && m_match(p, i + 1, s, j + 1);
    }
    return p[i] == s[j] && m_match(p, i + 1, s, j + 1);
}

// The same characters with nothing that may be read before or after them
struct Exact {
    std::vector<char> v;
    explicit Exact(std::string const& s) : v(s.begin(), s.end()) { v.shrink_to_fit(); }
    operator quickbook::string_view() const { return quickbook::string_view(v.data(), v.size()); }
};

static void globs()
{
    for (int n = 0; n < 20; ++n) {
        string p;
        for (unsigned k = rnd(7); k; --k) {
            switch (rnd(9)) {
            case 0: p += '*'; break;
            case 1: p += '?'; break;
            case 2: p += '\\'; p += "*?[]ab-"[rnd(7)]; break;
            case 3: case 4: {
                p += '[';
                if (!rnd(3)) p += '^';
                for (unsigned j = 1 + rnd(3); j; --j) {
                    p += "abcd.x"[rnd(6)];
                    if (!rnd(3)) { p += '-'; p += "abcd.x"[rnd(6)]; }
                }
                if (!rnd(5)) p += '-';
                p += ']';
                break;
            }
            default: p += "abc.x"[rnd(5)];
            }
        }
        if (!p.empty() && !rnd(6)) p[rnd(p.size())] = "[]\\*/\x01\xc3^-"[rnd(9)];
        step("check_glob " + p);
        int want = m_check(p), got;
        try { got = qb::check_glob(Exact(p)); } catch (qb::glob_error&) { got = 2; }
        if (got != want) fail("check_glob(" + p + ") gave " + str(got) + ", expected " + str(want));
        if (want == 2) continue;
        // a bracket with only '^' in it is left out
        bool odd = p.find("[^]") != string::npos;
        for (int k = 0; k < 6 && !odd; ++k) {
            string s = text(6, "abcd.x-*?[");
            if (s.empty()) continue;
            step("glob " + p + " " + s);
            bool w = m_match(p, 0, s, 0), g;
            try { g = qb::glob(Exact(p), Exact(s)); } catch (qb::glob_error&) { fail("glob(" + p + "," + s + ") threw"); }
            if (w != g) fail("glob(" + p + "," + s + ") gave " + str(g));
        }
        std::size_t q = 0;
        string un;
        while (q < p.size() && !std::strchr("[]?*", p[q])) q += p[q] == '\\' ? 2 : 1;
        if (q >= p.size()) q = qb::string_view::npos;
        if (qb::find_glob_char(Exact(p)) != q) fail("find_glob_char(" + p + ") gave " + str(qb::find_glob_char(p)));
        for (std::size_t k = 0; k < p.size(); ++k) { if (p[k] == '\\') ++k; un += p[k]; }
        if (qb::glob_unescape(Exact(p)) != un) fail("glob_unescape(" + p + ") gave " + qb::glob_unescape(p));
    }
}

static void aborted(int)
{
    std::cout << "FAIL " << part << " " << which << "\naborted\nhistory:\n" << history.str() << std::endl;
    std::_Exit(1);
}

int main(int argc, char** argv)
{
    part = argv[1];
    unsigned long long first = std::strtoull(argv[2], 0, 10), count = std::strtoull(argv[3], 0, 10), seed = std::strtoull(argv[4], 0, 10);
    void (*f)() = part == "values" ? values : part == "mapped" ? mapped : part == "tree" ? trees : part == "collector" ? collectors
        : part == "symbols" ? symbols : part == "parse" ? parse : part == "glob" ? globs : 0;
    if (!f) return 2;
    std::signal(SIGABRT, aborted);
    std::set<std::size_t> distinct;
    for (which = first; which < first + count; ++which) {
        rs = seed * 1000003 + which * 7919 + part[0] * 31 + part[1];
        for (int k = 0; k < 4; ++k) rnd(2);
        history.str("");
        f();
        distinct.insert(std::hash<string>()(history.str()));
        if (which == first) {
            string h = history.str();
            std::replace(h.begin(), h.end(), '\n', '|');
            std::cout << "SAMPLE " << h.substr(0, 300) << "\n";
        }
    }
    std::cout << "DISTINCT " << distinct.size() << "\n";
    for (std::map<string, unsigned long long>::iterator i = counts.begin(); i != counts.end(); ++i) std::cout << "COUNT " << i->second << " " << i->first << "\n";
    std::cout << "DONE" << std::endl;
    return 0;
}
