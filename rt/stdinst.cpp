// libstdc++ templates that are normally only in the shared library
#include <string>
#include <stdexcept>
template class std::basic_string<char>;
