/* Conformance driver: executes programs over the public API of tsym (plus a few internal entry points that are
 * observable through it) and records what the real code did, one JSON line per program.
 *
 * Input (text): "P <id>" starts a program, every further line is one instruction. Value-producing instructions append
 * a register (numbered from 0), queries don't. Output: {"id":..,"ev":[{"op":..,"a":[regs],"x":[ints],"s":str,...}]}.
 *
 * Every batch of programs runs in a forked child: an abort, a signal or a CPU-time overrun is recorded as an event
 * of the program that caused it ("crash") and the next program is started in a new child. */
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include "tsym.h"
/* Internal entry points. If they have moved, the driver is built with NO_INTERNALS and the programs that need them are
 * reported as not executed. */
#ifndef NO_INTERNALS
#include "base.h"
#include "basefct.h"
#include "cache.h"
#include "gcd.h"
#include "number.h"
#include "numberfct.h"
#include "options.h"
#include "poly.h"
#include "polyinfo.h"
#include "primitivegcd.h"
#include "subresultantgcd.h"
#endif

using tsym::Var;

namespace {
    std::string jstr(std::string_view s)
    {
        std::string out = "\"";
        char buf[8];

        for (unsigned char c : s)
            if (c == '"' || c == '\\') {
                out += '\\';
                out += static_cast<char>(c);
            } else if (c < 0x20 || c >= 0x7f) {
                /* Bytes, not code points: the trace only has to be readable and distinct. */
                std::snprintf(buf, sizeof buf, "\\u%04x", c);
                out += buf;
            } else
                out += static_cast<char>(c);

        return out + "\"";
    }

    /* Decimal limbs (base 10^4), most significant first: TLC integers have 32 bits. */
    std::string limbs(std::string d)
    {
        while (d.size() % 4)
            d = "0" + d;
        std::string out = "[";
        for (std::size_t i = 0; i < d.size(); i += 4) {
            if (i)
                out += ",";
            out += std::to_string(std::stoi(d.substr(i, 4)));
        }
        return out + "]";
    }

    std::string dbl(double v)
    {
        /* The four 16 bit words of the IEEE representation, most significant first. */
        std::uint64_t b;
        std::memcpy(&b, &v, 8);
        return "[" + std::to_string(b >> 48) + "," + std::to_string((b >> 32) & 0xffff) + ","
          + std::to_string((b >> 16) & 0xffff) + "," + std::to_string(b & 0xffff) + "]";
    }

    std::string number(const Var& v)
    /* Integers and fractions have their digits printed, with the slash between numerator and denominator. */
    {
        if (v.type() == Var::Type::DOUBLE)
            return "{\"k\":\"dbl\",\"b\":" + dbl(static_cast<double>(v)) + "}";
        std::ostringstream os;
        tsym::PlaintextPrintEngine engine(os, tsym::PlaintextPrintEngine::CharSet::ASCII);
        tsym::print(engine, v);
        std::string d = os.str(), den = "1";
        const bool negative = d[0] == '-';
        if (negative)
            d.erase(0, 1);
        if (const auto slash = d.find('/'); slash != std::string::npos) {
            den = d.substr(slash + 1);
            d.erase(slash);
        }
        if (d.empty() || den.empty() || (d + den).find_first_not_of("0123456789") != std::string::npos)
            return "{\"k\":\"bad\"}";
        return std::string("{\"k\":\"num\",\"g\":") + (negative ? "-1" : d == "0" ? "0" : "1") + ",\"n\":" + limbs(d)
          + ",\"d\":" + limbs(den) + "}";
    }

    std::size_t nNodes;

    std::string tree(const Var& v);

    std::string opsOf(const Var& v)
    {
        std::string out = "[";
        bool first = true;
        for (const auto& o : tsym::operands(v)) {
            if (!first)
                out += ",";
            first = false;
            out += tree(o);
        }
        return out + "]";
    }

    std::string tree(const Var& v)
    {
        ++nNodes;
        switch (v.type()) {
            case Var::Type::SYMBOL:
                return "{\"k\":\"sym\",\"s\":" + jstr(tsym::name(v)) + ",\"p\":" + (tsym::isPositive(v) ? "1" : "0")
                  + "}";
            case Var::Type::INT:
            case Var::Type::FRACTION:
            case Var::Type::DOUBLE:
                return number(v);
            case Var::Type::CONSTANT:
                return "{\"k\":\"cst\",\"s\":" + jstr(tsym::name(v)) + "}";
            case Var::Type::UNDEFINED:
                return "{\"k\":\"und\"}";
            case Var::Type::FUNCTION:
                return "{\"k\":\"fct\",\"s\":" + jstr(tsym::name(v)) + ",\"o\":" + opsOf(v) + "}";
            case Var::Type::SUM:
                return "{\"k\":\"sum\",\"o\":" + opsOf(v) + "}";
            case Var::Type::PRODUCT:
                return "{\"k\":\"prd\",\"o\":" + opsOf(v) + "}";
            case Var::Type::POWER:
                return "{\"k\":\"pow\",\"o\":" + opsOf(v) + "}";
        }
        return "{\"k\":\"bad\"}";
    }

    std::string printed(const Var& v)
    {
        std::ostringstream os;
        tsym::PlaintextPrintEngine engine(os, tsym::PlaintextPrintEngine::CharSet::ASCII);
        tsym::print(engine, v);
        return os.str();
    }

    std::string streamed(const Var& v)
    {
        std::ostringstream os;
        os << v;
        return os.str();
    }

    struct CountingLogger : tsym::Logger {
        static inline int warnings = 0;
        static inline int errors = 0;
        void warning(const Message&) const override
        {
            ++warnings;
        }
        void error(const Message&) const override
        {
            ++errors;
        }
        void critical(const Message&) const override
        {
            ++errors;
        }
    };

    /* Unescapes \n, \t, \\, \xHH in string operands. */
    /* Non-ASCII characters as <code point>, blanks left out: TLA+ has no other notation. */
    std::string plain(const std::string& s)
    {
        std::string out;
        for (std::size_t i = 0; i < s.size(); ++i) {
            const auto c = static_cast<unsigned char>(s[i]);
            if (c == ' ')
                continue;
            if (c < 0x80) {
                out += s[i];
                continue;
            }
            if ((c & 0xe0) == 0xc0 && i + 1 < s.size()) {
                char buf[16];
                std::snprintf(buf, sizeof buf, "<%04x>", ((c & 0x1fU) << 6) | (static_cast<unsigned char>(s[i + 1]) & 0x3fU));
                out += buf;
                ++i;
            } else
                out += "<?>";
        }
        return out;
    }

    /* What a print engine is told. */
    class Recorder : public tsym::PrintEngine {
      public:
        std::string log;

        PrintEngine& symbol(std::string_view n, std::string_view b, std::string_view p) override
        {
            return name(n, b, p, 0);
        }
        PrintEngine& positiveSymbol(std::string_view n, std::string_view b, std::string_view p) override
        {
            return name(n, b, p, 1);
        }
        PrintEngine& functionName(std::string_view n) override
        {
            return add("fct", ",\"s\":" + jstr(n));
        }
        PrintEngine& floatingPoint(double n) override
        {
            return add("dbl", ",\"b\":" + dbl(n));
        }
        PrintEngine& integer(long long n) override
        {
            return integer(std::to_string(n));
        }
        PrintEngine& integer(std::string_view n) override
        {
            std::string d(n);
            const bool negative = !d.empty() && d[0] == '-';
            if (negative)
                d.erase(0, 1);
            if (d.empty() || d.find_first_not_of("0123456789") != std::string::npos)
                return add("bad");
            return add("int", std::string(",\"g\":") + (negative ? "-1" : d == "0" ? "0" : "1") + ",\"n\":" + limbs(d) + ",\"s\":" + jstr(n));
        }
        PrintEngine& undefined() override { return add("und"); }
        PrintEngine& plusSign() override { return add("+"); }
        PrintEngine& minusSign() override { return add("-"); }
        PrintEngine& unaryMinusSign() override { return add("~"); }
        PrintEngine& timesSign() override { return add("*"); }
        PrintEngine& divisionSign() override { return add("/"); }
        PrintEngine& comma() override { return add(","); }
        PrintEngine& openNumerator(bool f) override { return add("num(", flag(f)); }
        PrintEngine& closeNumerator(bool f) override { return add("num)", flag(f)); }
        PrintEngine& openDenominator(bool f) override { return add("den(", flag(f)); }
        PrintEngine& closeDenominator(bool f) override { return add("den)", flag(f)); }
        PrintEngine& openScalarExponent() override { return add("exp("); }
        PrintEngine& closeScalarExponent() override { return add("exp)"); }
        PrintEngine& openCompositeExponent() override { return add("cexp("); }
        PrintEngine& closeCompositeExponent() override { return add("cexp)"); }
        PrintEngine& openSquareRoot() override { return add("sqrt("); }
        PrintEngine& closeSquareRoot() override { return add("sqrt)"); }
        PrintEngine& openParentheses() override { return add("("); }
        PrintEngine& closeParentheses() override { return add(")"); }

      private:
        static std::string flag(bool f)
        {
            return std::string(",\"f\":") + (f ? "1" : "0");
        }
        PrintEngine& name(std::string_view n, std::string_view b, std::string_view p, int positive)
        {
            return add("sym", ",\"n\":" + jstr(n) + ",\"b\":" + jstr(b) + ",\"p\":" + jstr(p) + ",\"q\":" + std::to_string(positive));
        }
        PrintEngine& add(const char *t, const std::string& rest = "")
        {
            log += (log.empty() ? "{\"t\":\"" : ",{\"t\":\"") + std::string(t) + "\"" + rest + "}";
            return *this;
        }
    };

    std::string unescape(const std::string& s)
    {
        std::string out;
        for (std::size_t i = 0; i < s.size(); ++i)
            if (s[i] == '\\' && i + 1 < s.size()) {
                ++i;
                if (s[i] == 'n')
                    out += '\n';
                else if (s[i] == 't')
                    out += '\t';
                else if (s[i] == 'x' && i + 2 < s.size()) {
                    out += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
                    i += 2;
                } else
                    out += s[i];
            } else
                out += s[i];
        return out;
    }

    using Matrix = std::vector<std::vector<Var>>;

    /* A matrix type with call operators, to reach the other access branch of the templates. */
    struct CallMatrix {
        std::vector<Var> data;
        std::size_t dim;
        Var& operator()(std::size_t i, std::size_t j)
        {
            return data[i * dim + j];
        }
        const Var& operator()(std::size_t i, std::size_t j) const
        {
            return data[i * dim + j];
        }
    };
    struct CallVector {
        std::vector<Var> data;
        Var& operator()(std::size_t i)
        {
            return data[i];
        }
        const Var& operator()(std::size_t i) const
        {
            return data[i];
        }
    };

    class Machine {
      public:
        explicit Machine(std::size_t nodeLimit)
            : limit(nodeLimit)
        {}

        std::string ev;
        std::vector<Var> reg;

        bool step(const std::string& line)
        /* False: the program stops here. */
        {
            std::istringstream is(line);
            std::string op;
            is >> op;

            CountingLogger::warnings = CountingLogger::errors = 0;
            a.clear();
            x.clear();
            extra.clear();
            nNodes = 0;

            try {
                exec(op, is, line);
            } catch (const Missing&) {
                /* An earlier call threw: there is no operand, no call */
                return true;
            } catch (const std::invalid_argument& e) {
                emit(op, ",\"exc\":\"invalid_argument\"");
                return true;
            } catch (const std::overflow_error& e) {
                emit(op, ",\"exc\":\"overflow_error\"");
                return true;
            } catch (const std::domain_error& e) {
                emit(op, ",\"exc\":\"domain_error\"");
                return true;
            } catch (const std::exception& e) {
                emit(op, std::string(",\"exc\":") + jstr(typeid(e).name()));
                return true;
            }
            return !tooLarge;
        }

      private:
        struct Missing {};
        std::size_t limit;
        bool tooLarge = false;
        std::vector<int> a;
        std::vector<long> x;
        std::string extra;

        void emit(const std::string& op, const std::string& rest)
        {
            if (!ev.empty())
                ev += ",";
            ev += "{\"op\":\"" + op + "\",\"a\":[";
            for (std::size_t i = 0; i < a.size(); ++i)
                ev += (i ? "," : "") + std::to_string(a[i] + 1);
            ev += "],\"x\":[";
            for (std::size_t i = 0; i < x.size(); ++i)
                ev += (i ? "," : "") + std::to_string(x[i]);
            ev += "]" + extra + rest + "}";
        }

        const Var& arg(std::istringstream& is)
        {
            int i = -1;
            is >> i;
            a.push_back(i);
            if (i < 0 || static_cast<std::size_t>(i) >= reg.size())
                throw Missing{};
            return reg[static_cast<std::size_t>(i)];
        }

        long num(std::istringstream& is)
        {
            long i = 0;
            is >> i;
            x.push_back(i);
            return i;
        }

        static std::string restOf(std::istringstream& is)
        {
            std::string r;
            std::getline(is, r);
            if (!r.empty() && r[0] == ' ')
                r.erase(0, 1);
            return unescape(r);
        }

        void result(const std::string& op, const Var& v)
        {
            std::string t = tree(v);

            if (nNodes > limit) {
                tooLarge = true;
                t = "{\"k\":\"big\"}";
            }
            reg.push_back(v);
            emit(op, ",\"r\":" + t);
        }

        void intResult(const std::string& op, long v)
        {
            emit(op, ",\"v\":" + std::to_string(v));
        }

        std::string sameTrees(const std::vector<Var>& before, const std::vector<std::string>& texts)
        /* Were the register's values left alone? */
        {
            for (std::size_t i = 0; i < before.size(); ++i)
                if (tree(before[i]) != texts[i])
                    return "0";
            return "1";
        }

        void exec(const std::string& op, std::istringstream& is, const std::string&)
        {
            using Unary = Var (*)(const Var&);
            static const std::map<std::string, Unary> unary{{"sqrt", tsym::sqrt}, {"log", tsym::log},
              {"sin", tsym::sin}, {"cos", tsym::cos}, {"tan", tsym::tan}, {"asin", tsym::asin}, {"acos", tsym::acos},
              {"atan", tsym::atan}, {"expand", tsym::expand}, {"simplify", tsym::simplify}, {"numer", tsym::numerator},
              {"denom", tsym::denominator}, {"neg", [](const Var& v) { return -v; }},
              {"pos", [](const Var& v) { return +v; }},
              {"normal", tsym::normal}};
            using Binary = Var (*)(const Var&, const Var&);
            static const std::map<std::string, Binary> binary{
              {"add", [](const Var& l, const Var& r) { return l + r; }},
              {"sub", [](const Var& l, const Var& r) { return l - r; }},
              {"mul", [](const Var& l, const Var& r) { return l * r; }},
              {"div", [](const Var& l, const Var& r) { return l / r; }},
              /* Compound assignment, with the operand aliasing the target if l and r are the same register. */
              {"iadd",
                [](const Var& l, const Var& r) {
                    Var t(l);
                    t += &l == &r ? t : r;
                    return t;
                }},
              {"isub",
                [](const Var& l, const Var& r) {
                    Var t(l);
                    t -= &l == &r ? t : r;
                    return t;
                }},
              {"imul",
                [](const Var& l, const Var& r) {
                    Var t(l);
                    t *= &l == &r ? t : r;
                    return t;
                }},
              {"idiv",
                [](const Var& l, const Var& r) {
                    Var t(l);
                    t /= &l == &r ? t : r;
                    return t;
                }},
              {"pow", tsym::pow}, {"atan2", tsym::atan2}, {"diff", tsym::diff}};

            if (const auto u = unary.find(op); u != unary.end()) {
                const Var& v = arg(is);
                return result(op, u->second(v));
            }
            if (const auto b = binary.find(op); b != binary.end()) {
                const Var& l = arg(is);
                const Var& r = arg(is);
                return result(op, b->second(l, r));
            }

            if (op == "int")
                return result(op, Var(static_cast<int>(num(is))));
            else if (op == "rat") {
                const int n = static_cast<int>(num(is)), d = static_cast<int>(num(is));
                return result(op, Var(n, d));
            } else if (op == "dbl") {
                std::string t;
                is >> t;
                const double v = std::strtod(t.c_str(), nullptr);
                extra = ",\"b\":" + dbl(v);
                return result(op, Var(v));
            } else if (op == "zero")
                return result(op, Var());
            else if (op == "pi")
                return result(op, tsym::pi());
            else if (op == "euler")
                return result(op, tsym::euler());
            else if (op == "str" || op == "sym" || op == "psym" || op == "big") {
                const std::string s = restOf(is);
                extra = ",\"s\":" + jstr(s);
                if (op == "big")
                    extra += ",\"l\":" + limbs(s);
                return result(op, op == "psym" ? Var(s, Var::Sign::POSITIVE) : Var(s));
            } else if (op == "parse") {
                const std::string s = restOf(is);
                extra = ",\"s\":" + jstr(s);
                if (const auto v = tsym::parse(s))
                    return result(op, *v);
                return emit(op, ",\"fail\":1");
            } else if (op == "ptok") {
                /* Parse a sequence of tokens, joined (1: with blanks between). */
                const bool blanks = num(is) == 1;
                std::string t, s, w;
                while (is >> t) {
                    t = unescape(t);
                    s += (blanks && !s.empty() ? " " : "") + t;
                    w += (w.empty() ? "" : ",") + jstr(t);
                }
                extra = ",\"s\":" + jstr(s) + ",\"w\":[" + w + "]";
                if (const auto v = tsym::parse(s))
                    return result(op, *v);
                return emit(op, ",\"fail\":1");
            } else if (op == "frac") {
                const Var& e = arg(is);
                result("numer", tsym::numerator(e));
                if (tooLarge)
                    return;
                const int n = static_cast<int>(reg.size()) - 1;
                const Var copy(reg.at(static_cast<std::size_t>(a[0])));
                a.push_back(n);
                nNodes = 0;
                return result("denom", tsym::denominator(copy));
            } else if (op == "subst") {
                const Var& e = arg(is);
                const Var& f = arg(is);
                const Var& t = arg(is);
                return result(op, tsym::subst(e, f, t));
            } else if (op == "roundtrip") {
                /* parse(print(e)) */
                const Var& e = arg(is);
                const std::string s = printed(e);
                extra = ",\"s\":" + jstr(s) + ",\"u\":" + jstr(streamed(e));
                if (const auto v = tsym::parse(s)) {
                    extra += std::string(",\"same\":") + (*v == e ? "1" : "0");
                    return result(op, *v);
                }
                return emit(op, ",\"fail\":1");
            } else if (op == "print") {
                const Var& e = arg(is);
                return emit(op, ",\"s\":" + jstr(printed(e)) + ",\"u\":" + jstr(streamed(e)));
            } else if (op == "stream") {
                const Var& e = arg(is);
                Recorder engine;
                tsym::print(engine, e);
                return emit(op, ",\"k\":[" + engine.log + "],\"s\":" + jstr(plain(printed(e))) + ",\"u\":" + jstr(plain(streamed(e))));
            } else if (op == "vstr") {
                /* A variable from a text (1: positive) */
                const bool positive = num(is) == 1;
                const std::string s = restOf(is);
                const Var v = positive ? Var(s, Var::Sign::POSITIVE) : Var(s);
                Recorder engine;
                tsym::print(engine, v);
                extra = ",\"s\":" + jstr(s) + ",\"k\":[" + engine.log + "],\"name\":" + jstr(tsym::name(v)) + ",\"t\":" + jstr(plain(printed(v))) + ",\"u\":"
                  + jstr(plain(streamed(v)));
                return result(op, v);
            } else if (op == "has") {
                const Var& e = arg(is);
                const Var& w = arg(is);
                return intResult(op, tsym::has(e, w));
            } else if (op == "sign") {
                const Var& e = arg(is);
                return emit(op,
                  std::string(",\"pos\":") + (tsym::isPositive(e) ? "1" : "0")
                    + ",\"neg\":" + (tsym::isNegative(e) ? "1" : "0"));
            } else if (op == "eq") {
                const Var& l = arg(is);
                const Var& r = arg(is);
                const std::hash<Var> h{};
                return emit(op,
                  std::string(",\"eq\":") + (l == r ? "1" : "0") + ",\"qe\":" + (r == l ? "1" : "0")
                    + ",\"ne\":" + (l != r ? "1" : "0") + ",\"hash\":" + (h(l) == h(r) ? "1" : "0"));
            } else if (op == "todouble") {
                const Var& e = arg(is);
                return emit(op, ",\"b\":" + dbl(static_cast<double>(e)));
            } else if (op == "toint") {
                const Var& e = arg(is);
                const int v = static_cast<int>(e);
                /* As sign and limbs, so that nothing wraps in TLC. */
                const long w = v;
                return emit(op,
                  std::string(",\"g\":") + (v < 0 ? "-1" : v == 0 ? "0" : "1")
                    + ",\"n\":" + limbs(std::to_string(w < 0 ? -w : w)));
            } else if (op == "complexity") {
                const Var& e = arg(is);
                std::string co;
                for (const auto& o : tsym::operands(e))
                    co += (co.empty() ? "" : ",") + std::to_string(tsym::complexity(o));
                extra = ",\"co\":[" + co + "]";
                return intResult(op, static_cast<long>(tsym::complexity(e)));
            } else if (op == "simpcx") {
                /* How complex are the simplified and the expanded form? */
                const Var& e = arg(is);
                const auto v = tsym::complexity(tsym::simplify(e));
                extra = ",\"e\":" + std::to_string(tsym::complexity(tsym::expand(e)));
                return intResult(op, static_cast<long>(v));
            } else if (op == "query") {
                /* Structural queries in one event: type, name, operands, collected symbols. */
                const Var& e = arg(is);
                std::ostringstream ts;
                ts << e.type();
                std::string syms = "[";
                bool first = true;
                for (const auto& s : tsym::collectSymbols(e)) {
                    syms += (first ? "" : ",") + tree(s);
                    first = false;
                }
                return emit(op,
                  ",\"type\":" + jstr(ts.str()) + ",\"name\":" + jstr(tsym::name(e)) + ",\"syms\":" + syms
                    + "],\"nops\":" + std::to_string(tsym::operands(e).size()));
            } else if (op == "op") {
                /* The n-th operand (modulo their number), or the expression itself if there's none. */
                const Var& e = arg(is);
                const auto n = num(is);
                const auto ops = tsym::operands(e);
                return result(op, ops.empty() ? e : ops[static_cast<std::size_t>(n) % ops.size()]);
            } else if (op == "rebuild") {
                /* Folds the operands with the public operators in a permuted order given by a multiplier and offset. */
                const Var& e = arg(is);
                const auto mult = static_cast<std::size_t>(num(is));
                const auto off = static_cast<std::size_t>(num(is));
                const auto ops = tsym::operands(e);
                if (ops.empty()) {
                    extra = ",\"same\":1";
                    return result(op, e);
                }
                const auto n = ops.size();
                if (e.type() == Var::Type::SUM || e.type() == Var::Type::PRODUCT) {
                    const bool isSum = e.type() == Var::Type::SUM;
                    std::vector<Var> left(ops);
                    Var acc(isSum ? 0 : 1);
                    std::size_t state = off;
                    while (!left.empty()) {
                        state = state * mult + off + 1;
                        const auto i = state % left.size();
                        if (isSum)
                            acc += left[i];
                        else
                            acc *= left[i];
                        left.erase(left.begin() + static_cast<long>(i));
                    }
                    extra = std::string(",\"same\":") + (acc == e ? "1" : "0");
                    return result(op, acc);
                } else if (e.type() == Var::Type::POWER) {
                    const Var p = tsym::pow(ops[0], ops[1]);
                    extra = std::string(",\"same\":") + (p == e ? "1" : "0");
                    return result(op, p);
                }
                (void)n;
                extra = ",\"same\":1";
                return result(op, e);
            } else if (op == "det" || op == "solve" || op == "inv")
                return linear(op, is);
#ifndef NO_INTERNALS
            else if (op == "divide" || op == "gcd") {
                const Var u = arg(is);
                const Var v = arg(is);
                if (!tsym::poly::isInputValid(*u.get(), *v.get()) || tsym::isZero(*v.get()->expand()))
                {
                    /* Not polynomials: two placeholders, for the numbers of the registers. */
                    a.clear();
                    result("nop", Var());
                    return result("nop", Var());
                }
                if (op == "gcd") {
                    result(op, Var(tsym::poly::gcd(u.get(), v.get())));
                    nNodes = 0;
                    return result("pgcd", Var(tsym::poly::gcd(u.get(), v.get(), tsym::PrimitiveGcd{})));
                } else if (op == "divide") {
                    const auto qr = tsym::poly::divide(u.get(), v.get());
                    const auto keep = a;
                    result("quot", Var(qr.front()));
                    a = keep;
                    a.push_back(static_cast<int>(reg.size()) - 1);
                    return result("rem", Var(qr.back()));
                }
                return emit(op, ",\"fail\":1");
            } else if (op == "ldivide") {
                /* Division of u by v, polynomials in the symbols x and y, in this order. */
                const Var u = arg(is);
                const Var v = arg(is);
                const Var x = arg(is);
                const Var y = arg(is);
                bool ok = x.type() == Var::Type::SYMBOL && y.type() == Var::Type::SYMBOL && x != y
                  && tsym::poly::isInputValid(*u.get(), *v.get()) && !tsym::isZero(*v.get()->expand());
                for (const Var& e : {u, v})
                    for (const Var& s : tsym::collectSymbols(e))
                        ok = ok && (s == x || s == y);
                if (!ok) {
                    a.clear();
                    result("nop", Var());
                    return result("nop", Var());
                }
                const auto qr = tsym::poly::divide(u.get(), v.get(), tsym::BasePtrList{x.get(), y.get()});
                const auto keep = a;
                result("lquot", Var(qr.front()));
                a = {keep[0], keep[1], static_cast<int>(reg.size()) - 1, keep[2], keep[3]};
                return result("lrem", Var(qr.back()));
            } else if (op == "pdivide") {
                /* Pseudo-division of u by v with respect to the symbol x. */
                const Var u = arg(is);
                const Var v = arg(is);
                const Var x = arg(is);
                if (x.type() != Var::Type::SYMBOL || !tsym::poly::isInputValid(*u.get(), *v.get())
                  || tsym::isZero(*v.get()->expand())) {
                    a.clear();
                    result("nop", Var());
                    return result("nop", Var());
                }
                const auto qr = tsym::poly::pseudoDivide(u.get(), v.get(), x.get());
                const auto keep = a;
                extra = std::string(",\"same\":")
                  + (tsym::poly::pseudoRemainder(u.get(), v.get(), x.get())->isEqual(*qr.back()) ? "1" : "0");
                const auto same = extra;
                extra.clear();
                result("pquot", Var(qr.front()));
                a = keep;
                a.push_back(static_cast<int>(reg.size()) - 1);
                extra = same;
                return result("prem", Var(qr.back()));
            } else if (op == "poly") {
                /* The polynomial u as one in the symbol x: degrees, coefficients, content. */
                const Var u = arg(is);
                const Var x = arg(is);
                const auto& up = u.get();
                if (x.type() != Var::Type::SYMBOL || !tsym::poly::isInputValid(*up, *up)) {
                    a.clear();
                    return emit("skipped", "");
                }
                const int deg = up->degree(*x.get());
                std::string cs;
                for (int i = 0; i <= deg && i < 40; ++i)
                    cs += (i ? "," : "") + tree(Var(up->coeff(*x.get(), i)));
                return emit(op,
                  ",\"deg\":" + std::to_string(deg) + ",\"min\":" + std::to_string(tsym::poly::minDegree(*up, *x.get()))
                    + ",\"cs\":[" + cs + "],\"lc\":" + tree(Var(up->leadingCoeff(*x.get())))
                    + ",\"above\":" + tree(Var(up->coeff(*x.get(), deg + 1)))
                    + ",\"ct\":" + tree(Var(tsym::poly::content(up, x.get()))) + ",\"pct\":"
                    + tree(Var(tsym::poly::content(up, x.get(), tsym::PrimitiveGcd{})))
                    + ",\"unit\":" + std::to_string(tsym::poly::unit(*up, *x.get())));
            } else if (op == "ncmp") {
                /* Rational numbers: comparison, hash, kind, sign and magnitude (of the first) */
                const Var u = arg(is);
                const Var v = arg(is);
                const auto rational = [](const Var& w) {
                    return w.type() == Var::Type::INT || w.type() == Var::Type::FRACTION;
                };
                if (!rational(u) || !rational(v)) {
                    a.clear();
                    return emit("skipped", "");
                }
                const tsym::Number l = *u.get()->numericEval();
                const tsym::Number r = *v.get()->numericEval();
                const std::hash<tsym::Number> h{};
                std::string out;
                const auto flag = [&out](const char* name, bool value) {
                    out += std::string(",\"") + name + "\":" + (value ? "1" : "0");
                };
                flag("lt", l < r);
                flag("le", l <= r);
                flag("gt", l > r);
                flag("ge", l >= r);
                flag("eq", l == r);
                flag("ne", l != r);
                flag("hash", h(l) == h(r));
                flag("isint", tsym::isInt(l));
                flag("isfrac", tsym::isFraction(l));
                flag("odd", tsym::isOddInt(l));
                flag("even", tsym::isEvenInt(l));
                const auto magnitude = tsym::abs(l);
                return emit(op, out + ",\"sg\":" + std::to_string(tsym::sign(l)) + ",\"abs\":{\"k\":\"num\",\"g\":"
                    + (magnitude.numerator() < 0 ? "-1" : magnitude.numerator() == 0 ? "0" : "1") + ",\"n\":"
                    + limbs(tsym::Int(tsym::abs(magnitude.numerator())).str()) + ",\"d\":" + limbs(magnitude.denominator().str()) + "}");
            } else if (op == "clear") {
                tsym::clearRegisteredCaches();
                return emit(op, "");
            } else if (op == "maxprime") {
                tsym::options::setMaxPrimeResolution(tsym::Int(num(is)));
                return emit(op, "");
            }
#else
            else if (op == "divide" || op == "gcd" || op == "pdivide" || op == "ldivide") {
                result("nop", Var());
                return result("nop", Var());
            } else if (op == "clear" || op == "maxprime" || op == "poly" || op == "ncmp")
                return emit("skipped", "");
#endif
            else if (op == "frozen") {
                /* Re-reads all registers: nothing that was done later may have changed them. */
                std::string out = ",\"trees\":[";
                for (std::size_t i = 0; i < reg.size(); ++i)
                    out += (i ? "," : "") + tree(reg[i]);
                return emit(op, out + "]");
            }

            throw std::runtime_error("unknown instruction " + op);
        }

        void linear(const std::string& op, std::istringstream& is)
        /* det|solve|inv dim algo access skipmask regs... */
        {
            const auto dim = static_cast<std::size_t>(num(is));
            const auto algo = num(is) == 0 ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
            const long access = num(is);
            const long mask = num(is);
            const bool useSkip = mask >= 0;
            std::vector<bool> skip(dim, false);
            std::vector<Var> A, b;

            for (std::size_t i = 0; i < dim && useSkip; ++i)
                skip[i] = (mask >> i) & 1;
            for (std::size_t i = 0; i < dim * dim; ++i)
                A.push_back(arg(is));
            for (std::size_t i = 0; i < dim && op == "solve"; ++i)
                b.push_back(arg(is));

            std::vector<std::string> textA, textB;
            for (const auto& v : A)
                textA.push_back(tree(v));
            for (const auto& v : b)
                textB.push_back(tree(v));
            nNodes = 0;

            /* What skipped rows/columns of outputs hold beforehand has to survive. */
            const Var marker("untouched");
            Matrix M(dim, std::vector<Var>(dim));
            CallMatrix C{A, dim};
            CallVector cb{b}, cx{std::vector<Var>(dim, marker)};
            std::vector<Var> xs(dim, marker);
            Var d;

            for (std::size_t i = 0; i < dim; ++i)
                for (std::size_t j = 0; j < dim; ++j)
                    M[i][j] = A[i * dim + j];

            std::string exc;
            std::vector<Var> after;

            try {
                if (op == "det") {
                    if (access == 0)
                        d = useSkip ? tsym::determinant(M, skip, dim, algo) : tsym::determinant(M, dim, algo);
                    else
                        d = useSkip ? tsym::determinant(C, skip, dim, algo) : tsym::determinant(C, dim, algo);
                } else if (op == "solve") {
                    if (access == 0)
                        useSkip ? tsym::solve(M, b, xs, skip, dim, algo) : tsym::solve(M, b, xs, dim, algo);
                    else
                        useSkip ? tsym::solve(C, cb, cx, skip, dim, algo) : tsym::solve(C, cb, cx, dim, algo);
                } else {
                    if (access == 0)
                        useSkip ? tsym::invert(M, skip, dim, algo) : tsym::invert(M, dim, algo);
                    else
                        useSkip ? tsym::invert(C, skip, dim, algo) : tsym::invert(C, dim, algo);
                }
            } catch (const std::invalid_argument&) {
                exc = ",\"exc\":\"invalid_argument\"";
            }

            if (access != 0)
                for (std::size_t i = 0; i < dim; ++i)
                    for (std::size_t j = 0; j < dim; ++j)
                        M[i][j] = C(i, j);

            /* Input left alone? (invert works in place, unless it threw.) */
            bool kept = true;
            std::string out;
            for (std::size_t i = 0; i < dim; ++i)
                for (std::size_t j = 0; j < dim; ++j)
                    if (op != "inv" && tree(M[i][j]) != textA[i * dim + j])
                        kept = false;
            if (op == "solve")
                for (std::size_t i = 0; i < dim; ++i)
                    if (tree(access == 0 ? b[i] : cb(i)) != textB[i])
                        kept = false;
            extra = std::string(",\"kept\":") + (kept ? "1" : "0");

            if (!exc.empty())
                return emit(op, exc);
            nNodes = 0;
            if (op == "det")
                return result(op, d);

            std::string trees;
            std::size_t n = 0;
            auto add = [&](const Var& v) {
                trees += (n++ ? "," : "") + tree(v);
            };
            if (op == "solve")
                for (std::size_t i = 0; i < dim; ++i)
                    add(access == 0 ? xs[i] : cx(i));
            else
                for (std::size_t i = 0; i < dim; ++i)
                    for (std::size_t j = 0; j < dim; ++j)
                        add(M[i][j]);
            if (nNodes > 4 * limit) {
                tooLarge = true;
                return emit(op, ",\"toobig\":1");
            }
            emit(op, ",\"rs\":[" + trees + "]");
        }
    };

    struct Program {
        std::string id;
        std::vector<std::string> lines;
    };
}

int main(int argc, char** argv)
{
    /* tsymdrv IN OUT [batch] [cpu seconds per program] [node limit] */
    if (argc < 3)
        return 2;
    const std::size_t batch = argc > 3 ? std::stoul(argv[3]) : 500;
    const long cpu = argc > 4 ? std::stol(argv[4]) : 20;
    const std::size_t limit = argc > 5 ? std::stoul(argv[5]) : 400;
    std::vector<Program> programs;
    std::ifstream in(argv[1]);
    std::string line;

    while (std::getline(in, line)) {
        if (line.rfind("P ", 0) == 0)
            programs.push_back({line.substr(2), {}});
        else if (!line.empty() && !programs.empty())
            programs.back().lines.push_back(line);
    }

    struct Shared {
        std::size_t current; /* Program being executed. */
        std::size_t line;
        bool wall;
    };
    auto* shared = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    FILE* out = std::fopen(argv[2], "w");
    if (out == nullptr || shared == MAP_FAILED)
        return 2;

    const struct rlimit noCore {
        0, 0
    };
    setrlimit(RLIMIT_CORE, &noCore);

    std::size_t next = 0;
    while (next < programs.size()) {
        const std::size_t end = std::min(next + batch, programs.size());
        shared->current = next;
        std::fflush(out);
        const pid_t pid = fork();
        if (pid < 0)
            return 2;
        if (pid == 0) {
            tsym::Logger::setInstance(std::make_unique<const CountingLogger>());
            std::freopen("/dev/null", "w", stderr);
            const struct rlimit mem {
                3ul << 30, 3ul << 30
            };
            setrlimit(RLIMIT_AS, &mem);
            for (std::size_t i = next; i < end; ++i) {
                shared->current = i;
                struct itimerval t {};
                t.it_value.tv_sec = cpu;
                setitimer(ITIMER_PROF, &t, nullptr);
                Machine m(limit);
                shared->line = 0;
                for (const auto& l : programs[i].lines) {
                    if (!m.step(l))
                        break;
                    ++shared->line;
                }
                std::fprintf(out, "{\"id\":\"%s\",\"ev\":[%s]}\n", programs[i].id.c_str(), m.ev.c_str());
                std::fflush(out);
            }
            std::fflush(out);
            shared->current = end;
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shared->current == end)
            next = end;
        else {
            std::string how = "exit";
            if (WIFSIGNALED(status)) {
                const int sig = WTERMSIG(status);
                how = sig == SIGPROF ? "hang" : sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv"
                  : sig == SIGKILL                              ? "kill"
                                                                : "signal" + std::to_string(sig);
            }
            const auto& p = programs[shared->current];
            std::fseek(out, 0, SEEK_END);
            std::fprintf(out, "{\"id\":\"%s\",\"ev\":[{\"op\":\"crash\",\"a\":[],\"x\":[],\"how\":\"%s\",\"s\":%s}]}\n", p.id.c_str(),
              how.c_str(), jstr(shared->line < p.lines.size() ? p.lines[shared->line] : "").c_str());
            next = shared->current + 1;
        }
    }
    std::fclose(out);
    return 0;
}
