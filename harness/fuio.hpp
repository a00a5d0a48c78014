// One case per line: fields in hexadecimal, separated by spaces; one line of hexadecimal back for every value.
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
static std::vector<std::string> T_args;
static bool T_next()
{
    T_args.assign(1, std::string());
    int c, hi = -1, any = 0;
    while ((c = getchar()) != EOF && c != '\n')
    {
        any = 1;
        if (c == ' ') { T_args.push_back(std::string()); continue; }
        int v = c >= 'a' ? c - 'a' + 10 : c - '0';
        if (hi < 0) hi = v; else { T_args.back().push_back(char(hi * 16 + v)); hi = -1; }
    }
    return any;
}
static void T_put(const char* p, long n)
{
    static const char* hex = "0123456789abcdef";
    for (long i = 0; i < n; i++) { putchar(hex[(p[i] >> 4) & 15]); putchar(hex[p[i] & 15]); }
    putchar(' ');
}
static void T_end() { putchar('\n'); fflush(stdout); }
static const std::string& T_arg(int i)
{
    static const std::string none;
    return size_t(i) < T_args.size() ? T_args[size_t(i)] : none;
}
