// libstdc++ declares std::string's members extern; instantiate them here so that they are instrumented
#include <string>
template class std::basic_string<char>;
