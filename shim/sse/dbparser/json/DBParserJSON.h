// Stand-in for the OpenSSE db-parser: an inverted index {"keyword": [ids...], ...}
#pragma once
#include <nlohmann/json.hpp>

#include <fstream>
#include <functional>
#include <list>
#include <stdexcept>
#include <string>
namespace dbparser {
class DBParserJSON
{
public:
    explicit DBParserJSON(const char* path) : path_(path)
    {
        if (!std::ifstream(path_).is_open()) {
            throw std::runtime_error("Unable to open " + path_);
        }
    }
    explicit DBParserJSON(const std::string& path) : DBParserJSON(path.c_str()) {}

    void addCallbackList(std::function<void(const std::string, const std::list<unsigned>)> cb)
    {
        list_ = std::move(cb);
    }
    void addCallbackPair(std::function<void(const std::string, unsigned)> cb)
    {
        pair_ = std::move(cb);
    }
    void parse()
    {
        std::ifstream in(path_);
        // streaming like the real parser: keywords before a syntax error are reported
        struct Sax : nlohmann::json_sax<nlohmann::json>
        {
            DBParserJSON*       p;
            std::string         kw;
            std::list<unsigned> docs;
            int                 depth = 0;
            bool                bad(const char* w)
            {
                throw std::runtime_error(std::string("Invalid inverted index: ") + w);
            }
            bool null() override { return bad("null"); }
            bool boolean(bool) override { return bad("boolean"); }
            bool number_integer(number_integer_t) override { return bad("negative"); }
            bool number_unsigned(number_unsigned_t v) override
            {
                docs.push_back(static_cast<unsigned>(v));
                return true;
            }
            bool number_float(number_float_t, const string_t&) override { return bad("float"); }
            bool string(string_t&) override { return bad("string"); }
            bool binary(binary_t&) override { return bad("binary"); }
            bool start_object(std::size_t) override { return ++depth == 1 || bad("object"); }
            bool end_object() override { --depth; return true; }
            bool start_array(std::size_t) override
            {
                docs.clear();
                return ++depth == 2 || bad("array");
            }
            bool end_array() override
            {
                --depth;
                if (p->list_) p->list_(kw, docs);
                if (p->pair_) {
                    for (unsigned d : docs) p->pair_(kw, d);
                }
                return true;
            }
            bool key(string_t& k) override { kw = k; return true; }
            bool parse_error(std::size_t, const std::string&,
                             const nlohmann::detail::exception& e) override
            {
                throw std::runtime_error(e.what());
            }
        } sax;
        sax.p = this;
        nlohmann::json::sax_parse(in, &sax);
    }

private:
    std::string                                                       path_;
    std::function<void(const std::string, const std::list<unsigned>)> list_;
    std::function<void(const std::string, unsigned)>                  pair_;
};
} // namespace dbparser
