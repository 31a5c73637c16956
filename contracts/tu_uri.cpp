#include <SAX/ArabicaConfig.hpp>
#include <../src/io/uri.cpp>
