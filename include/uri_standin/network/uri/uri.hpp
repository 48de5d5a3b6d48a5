// Stand-in for the cpp-netlib URI library, which is not present in this sandbox (the repository's own build leaves out
// the two files that need it). Only what the language server uses: RFC 3986 splitting and percent coding.
#pragma once
#include <cctype>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
namespace network {
struct uri_syntax_error : std::system_error
{
    uri_syntax_error()
        : std::system_error(std::make_error_code(std::errc::invalid_argument), "invalid URI syntax")
    {}
};
struct percent_decoding_error : std::system_error
{
    percent_decoding_error()
        : std::system_error(std::make_error_code(std::errc::invalid_argument), "bad percent encoding")
    {}
};
struct string_view : std::string_view
{
    using std::string_view::string_view;
    string_view(std::string_view s)
        : std::string_view(s)
    {}
    std::string to_string() const { return std::string(*this); }
};
class uri
{
    std::string s_, scheme_, auth_, path_;
    bool has_auth_ = false;

public:
    explicit uri(const std::string& s)
        : s_(s)
    {
        for (unsigned char c : s)
            if (c <= ' ' || c >= 127 || c == '"' || c == '<' || c == '>' || c == '\\' || c == '^' || c == '`' || c == '{'
                || c == '|' || c == '}')
                throw uri_syntax_error();
        auto c = s.find(':');
        if (c == std::string::npos || c == 0 || !isalpha((unsigned char)s[0]))
            throw uri_syntax_error();
        scheme_ = s.substr(0, c);
        for (unsigned char x : scheme_)
            if (!isalnum(x) && x != '+' && x != '-' && x != '.')
                throw uri_syntax_error();
        std::string r = s.substr(c + 1);
        r = r.substr(0, r.find_first_of("?#"));
        if (r.substr(0, 2) == "//")
        {
            has_auth_ = true;
            auto e = r.find('/', 2);
            auth_ = r.substr(2, e == std::string::npos ? std::string::npos : e - 2);
            path_ = e == std::string::npos ? "" : r.substr(e);
        }
        else
            path_ = r;
    }
    string_view scheme() const { return std::string_view(scheme_); }
    string_view authority() const { return std::string_view(auth_); }
    string_view path() const { return std::string_view(path_); }
    bool has_path() const { return !path_.empty(); }
    bool has_authority() const { return has_auth_; }
};
namespace detail {
inline std::string decode(const std::string& s)
{
    std::string o;
    auto hex = [](char c) -> int {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'f')
            return c - 'a' + 10;
        if (c >= 'A' && c <= 'F')
            return c - 'A' + 10;
        throw percent_decoding_error();
    };
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%')
        {
            if (i + 2 >= s.size())
                throw percent_decoding_error();
            o += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2]));
            i += 2;
        }
        else
            o += s[i];
    return o;
}
template<typename It>
void encode_char(char c, It& out, const char* ignore = "")
{
    const char* h = "0123456789ABCDEF";
    if (isalnum((unsigned char)c) || c == '-' || c == '_' || c == '~' || c == '.' || (c && std::string_view(ignore).find(c) != std::string_view::npos))
        *out++ = c;
    else
    {
        *out++ = '%';
        *out++ = h[((unsigned char)c) >> 4];
        *out++ = h[((unsigned char)c) & 15];
    }
}
} // namespace detail
} // namespace network
