
C='src/XML/XMLCharacterClasses.cpp'; ST='include/XML/strings.hpp'
D='#include <string>\n#include <SAX/ArabicaConfig.hpp>\n#include <Arabica/StringAdaptor.hpp>\n#include <XML/strings.hpp>\n#include <string>\nnamespace X = Arabica::XML;\nint main() { %s return 0; }\n'
B('P06a','P06','one of the letters between U+10F2 and U+10F6','the last Georgian letters are refused in names',
  [(C,"{ 0x10D0, 0x10F6 }","{ 0x10D0, 0x10F1 }")], D%'if(!X::is_letter(0x10F4)) return 1;', link=True)
B('P06b','P06','the middle dot, or U+0E46, in a name','an extender is not a name character in a name without colons',
  [(C,"""         (c == text::Unicode<wchar_t>::LOW_LINE) || // _
         is_combining_char(c) ||
         is_extender(c);
} // is_ncname_char""","""         (c == text::Unicode<wchar_t>::LOW_LINE) || // _
         is_combining_char(c) ||
         (is_extender(c) && is_letter(c));
} // is_ncname_char""")], D%'if(!X::is_ncname_char(0xB7)) return 1;', link=True)
B('P06c','P06','a name whose second part starts with a digit, hyphen or full stop','the local part of a prefixed name may start with any name character',
  [(ST,"""           is_ncname<string_adaptor>(b+(colon_index+1), e);""","""           std::find_if(b+(colon_index+1), e, [](value_type c) { return !is_ncname_char(c); }) == e && b+(colon_index+1) != e;""")],
  D%'if(X::is_qname<Arabica::default_string_adaptor<std::string> >("a:1b")) return 1;', link=True)
B('P06d','P06','a code unit above U+FFFF, as a wide string may hold','characters of the upper planes whose low half is a surrogate are refused',
  [(C,"""         ((c >= 0x0020) && (c <= 0xD7FF)) ||
""","""         ((c >= 0x0020) && ((c & 0xFFFF) <= 0xD7FF) && (c <= 0x10FFFF) && ((c & 0xFFFF) >= 0x20)) ||
"""),(C,"((c >= 0x10000) && (c <= 0x10FFFF))","((c >= 0x10000) && (c <= 0x10FFFF) && ((c & 0xFFFF) >= 0xE000))")],
  D%'for(long c = 0x10000; c < 0x110000; ++c) if(!X::is_char(wchar_t(c))) return 1;', link=True)
