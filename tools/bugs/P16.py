F='include/XSLT/impl/xslt_sort.hpp'
D='''#include <string>
#include <sstream>
#include <iostream>
#include <XSLT/XSLT.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
typedef std::string S;
static S run(const S& sorts, const S& doc) {
  std::istringstream is("<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:output method='text'/><xsl:template match='/'><xsl:for-each select='/r/i'>" + sorts + "<xsl:value-of select='@n'/></xsl:for-each></xsl:template></xsl:stylesheet>");
  Arabica::SAX::InputSource<S> src(is); Arabica::XSLT::StylesheetCompiler<S> c; auto x = c.compile(src);
  std::istringstream ds(doc); Arabica::SAX::InputSource<S> dsrc(ds); Arabica::SAX2DOM::Parser<S> p; p.parse(dsrc);
  std::ostringstream os; Arabica::XSLT::StreamSink<S> sink(os); x->set_output(sink); x->execute(p.getDocument()); return os.str(); }
int main() {
%s
  return 0; }
'''
B('P16a','P16','two or more non-numeric keys under a numeric sort that is followed by another sort','nodes whose first key is not a number are no longer ordered by the next key',
  [(F,"if(((nan1 && nan2) || (v1 == v2)) && (sub_sort_))","if((v1 == v2) && (sub_sort_))")],
  D % '''if(run("<xsl:sort select='@a' data-type='number'/><xsl:sort select='@b'/>", "<r><i n='1' a='x' b='2'/><i n='2' a='y' b='1'/></r>") != "21") return 1;''', link='all')
B('P16c','P16','four keys where the third and fourth disagree','the fourth key is applied before the third',
  [(F,"""    else 
      sub_sort_->add_sub_sort(sort);
  } // add_sub_sort""","""    else if(sub_sort_->sub_sort_ && !sub_sort_->sub_sort_->sub_sort_)
    {
      sort->sub_sort_ = sub_sort_->sub_sort_;
      sub_sort_->sub_sort_ = sort;
    }
    else
      sub_sort_->add_sub_sort(sort);
  } // add_sub_sort""")],
  D % """if(run("<xsl:sort select='@a'/><xsl:sort select='@b'/><xsl:sort select='@c'/><xsl:sort select='@d'/>", "<r><i n='1' a='x' b='x' c='2' d='1'/><i n='2' a='x' b='x' c='1' d='2'/></r>") != "21") return 1;""", link='all')
