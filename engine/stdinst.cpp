// Instrumented instantiations of the std::string code that normally lives in libstdc++.so.
#include <string>
#include <vector>
#include <map>
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
