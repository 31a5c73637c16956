
U='src/io/uri.cpp'; H='include/io/uri.hpp'
D='#include <string>\n#include <io/uri.hpp>\nusing Arabica::io::URI; typedef std::string S;\nint main() { %s return 0; }\n'
B('P11a','P11','an https URI without a port compared with its port','the default port of https is that of http',
  [(U,"""    if(scheme == SCHEME_HTTPS)
      return PORT_443;""","""    if(scheme.compare(0, 4, SCHEME_HTTP) == 0 && scheme.length() > 5)
      return PORT_443;""")], D%'if(URI("https://h/").port() != "443") return 1;', link='all')
B('P11c','P11','a local path with two backslashes in a row','every second one of consecutive backslashes is left',
  [(U,"i = path.find('\\\\', i))","i = path.find('\\\\', i+2))")], D%'if(URI("a\\\\b\\\\\\\\c").path() != "a/b//c") return 1;', link='all')
B('P11d','P11','two URIs that differ in their port only','URIs that differ only in an explicit port compare equal when one has none',
  [(H,"               port_ == rhs.port_ &&\n","               port() == rhs.port() &&\n")], D%'if(URI("http://h:80/a") == URI("http://h/a")) return 1;', link='all')
