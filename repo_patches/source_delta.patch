From da7aafbb81bfc5f0072a173970fea8a49b178ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 01/29] fix: AttributesImpl::operator= returns *this

---
 include/SAX/helpers/AttributesImpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..6562d97 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -93,6 +93,7 @@ public:
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
     setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
-- 
2.43.0


From 651b93682501c3772ac1595e2a12a2ab3443ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 02/29] fix: AttributesImpl::setAttributes keeps the list when
 copying from itself

---
 include/SAX/helpers/AttributesImpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 6562d97..01b1b1e 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -325,15 +325,15 @@ public:
    */
   void setAttributes(const AttributesT& atts)
   {
-	  clear();
-	  
+    AttrList attributes;
     int max = atts.getLength();
 	  for(int i = 0; i < max; ++i) 
-      attributes_.push_back(Attr(atts.getURI(i),
+      attributes.push_back(Attr(atts.getURI(i),
                           atts.getLocalName(i),
                           atts.getQName(i),
                           atts.getType(i),
                           atts.getValue(i)));
+    attributes_.swap(attributes);
   } // setAttributes
 
   /**
-- 
2.43.0


From cc95561e65ccab6628b0c667ec39f1849c5496c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 03/29] fix: child insertion and replacement check the
 reference child, fragments and documents before changing the tree

---
 include/DOM/Simple/NodeImpl.hpp | 34 ++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..807faa6 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -390,8 +390,16 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     {
       NodeImplT::throwIfReadOnly();
 
+      if(refChild)
+        findChild(refChild);
+      if(newChild == refChild)
+        return newChild;
+
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        checkNotAncestor(newChild);
+        for(NodeImplT* child = newChild->getFirst(); child != 0; child = child->getNext())
+          checkCanAdd(child);
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
           insertBefore(newChild->removeChild(child), refChild);
         return newChild;
@@ -431,11 +439,21 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     {
       NodeImplT::throwIfReadOnly();
 
+      findChild(oldChild);
+      if(newChild == oldChild)
+        return oldChild;
+
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
         // not exception safe - but the it's not specified to be :(
+        checkNotAncestor(newChild);
         DOMNode_implT* lc = newChild->getLastChild();
-        replaceChild(newChild->removeChild(lc), oldChild);
+        if(lc == 0)
+        {
+          removeChild(oldChild);
+          return oldChild;
+        } // if ...
+        replaceChild(lc, oldChild);
         insertBefore(newChild, lc);
         return oldChild;
       } // if ...
@@ -519,6 +537,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       DocumentImplT* childDoc = child->getOwnerDoc();
       if(childDoc == 0)
       {
+        checkChildType(child);
         child->setOwnerDoc(NodeImplT::getOwnerDoc());
         return;
       } //
@@ -527,19 +546,24 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       {
         if(childDoc != dynamic_cast<DocumentImplT*>(this))
           throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       } // if(parent is a Document)
 
       if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
         throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
 
-      for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
-	if(n == child)
-	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkNotAncestor(child);
 
       checkChildType(child);
     } // checkCanAdd
 
+    void checkNotAncestor(NodeImplT* child)
+    {
+      for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
+	if(n == child)
+	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkNotAncestor
+
     virtual void checkChildType(DOMNode_implT* child) = 0;
 
     void markChanged()
-- 
2.43.0


From 6a23a6a7fec2f1f34f533943f2f200350a708620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 04/29] fix: Document::replaceChild keeps documentElement and
 doctype in step with the children

---
 include/DOM/Simple/DocumentImpl.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..bea9319 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -394,7 +394,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
     {
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0))
+      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0) && (documentElement_ != newChild))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
@@ -411,20 +411,26 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
     {
-      checkChildType(newChild);
+      if(newChild->getNodeType() != DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        checkChildType(newChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
+      if((documentType_ != 0) &&
+         ((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) || (documentType_ == oldChild)))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
          (documentElement_ != 0) &&
-         (documentElement_ != oldChild))
+         (documentElement_ != oldChild) &&
+         (documentElement_ != newChild))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      else if(documentElement_ == oldChild)
+        documentElement_ = 0;
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
-- 
2.43.0


From 1327e9c1e86a9bd02e0fff8263ad3f49a80dd03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 05/29] fix: assigning a DOM handle to itself does not release
 the document

---
 include/DOM/Proxy.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Proxy.hpp b/include/DOM/Proxy.hpp
index 7ed415c..0e163a5 100644
--- a/include/DOM/Proxy.hpp
+++ b/include/DOM/Proxy.hpp
@@ -53,16 +53,13 @@ class Proxy
   private:
     void setImpl(ImplementationT* const impl)
     {
-      if(impl_)
-      {
-        impl_->releaseRef();
-        impl_ = 0;
-      }
+      // take the new reference before giving up the old one, they might be the same
       if(impl)
-      {
-        impl_ = impl;
-        impl_->addRef();
-      } // if(impl)
+        impl->addRef();
+      ImplementationT* const old = impl_;
+      impl_ = impl;
+      if(old)
+        old->releaseRef();
     } // setImpl
 
     // the thing that actually does the work!
-- 
2.43.0


From 41e70a71e48c4faa8caf9d054794b28f4e7d6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 06/29] fix: splitText checks its offset before computing with
 it, and owns a split node that has no parent

---
 include/DOM/Simple/CDATASectionImpl.hpp | 8 +++++++-
 include/DOM/Simple/TextImpl.hpp         | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..de9e5d8 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -31,11 +31,17 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
     {
       CharacterDataImplT::throwIfReadOnly();
 
+      if((offset < 0) || (offset > CharacterDataImplT::getLength()))
+        throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
+
       stringT second = CharacterDataImplT::substringData(offset, CharacterDataImplT::getLength() - offset);
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
+      DOMNode_implT *parent = CharacterDataImplT::getParentNode();
+      if(parent)
+        parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..4909ac1 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -32,10 +32,14 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
     {
       CharacterDataT::throwIfReadOnly();
 
+      if((offset < 0) || (offset > CharacterDataT::getLength()))
+        throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
+
       stringT second = CharacterDataT::substringData(offset, CharacterDataT::getLength() - offset);
       CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
       TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
+      CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
-- 
2.43.0


From ac7f4a09b6039cd4172b90a6123722e8454607c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 07/29] fix: CDATASection::splitText compiles

---
 include/DOM/CDATASection.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/DOM/CDATASection.hpp b/include/DOM/CDATASection.hpp
index e5b4f15..a81f2f0 100644
--- a/include/DOM/CDATASection.hpp
+++ b/include/DOM/CDATASection.hpp
@@ -35,8 +35,7 @@ class CDATASection : public Text<stringT, string_adaptorT>
 
     CDATASection<stringT, string_adaptorT> splitText(int offset) 
     { 
-      TextT::tImpl()->throwIfReadOnly();
-      return static_cast<CDATASection<stringT, string_adaptorT> >(TextT::tImpl()->splitText(offset)); 
+      return CDATASection(Node<stringT, string_adaptorT>(TextT::tImpl()->splitText(offset)));
     } // splitText
 }; // class CDATASection
 
-- 
2.43.0


From 4e8011acb8e620e1934acc0af0e06ea6d6cabb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:34 +0000
Subject: [PATCH 08/29] fix: NamespaceSupport redeclares a prefix in the same
 context, and reverse lookups skip shadowed and default prefixes

---
 include/SAX/helpers/NamespaceSupport.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..56607ed 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -178,7 +178,7 @@ class NamespaceSupport
       if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
         return false;
 
-      contexts_.back().insert(std::make_pair(prefix, uri));
+      contexts_.back()[prefix] = uri;
       return true;
     } // declarePrefix
 
@@ -277,7 +277,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if(u->second == uri && !string_adaptor::empty(u->first) && isInForce(i, u->first))
             return u->first;
       } // for ...
 
@@ -304,7 +304,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
+          if(!string_adaptor::empty(u->first) && isInForce(i, u->first))
             prefixes.push_back(u->first);
       } // for ...
        
@@ -339,7 +339,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if(u->second == uri && !string_adaptor::empty(u->first) && isInForce(i, u->first))
             prefixes.push_back(u->first);
       } // for ...
 
@@ -369,10 +369,19 @@ class NamespaceSupport
     } // getDeclaredPrefixes
 
   private:
-    typedef typename std::multimap<string_type, string_type> stringMapT;
+    typedef typename std::map<string_type, string_type> stringMapT;
     typedef stringMapT Context;
     typedef typename std::vector<Context> contextListT;
 
+    // is the declaration of prefix in this context the innermost one?
+    bool isInForce(typename contextListT::const_reverse_iterator context, const string_type& prefix) const
+    {
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != context; ++i)
+        if(i->find(prefix) != i->end())
+          return false;
+      return true;
+    } // isInForce
+
     // member variables
     contextListT contexts_;
 
-- 
2.43.0


From ecc689750972ea8c77bf904743f88b2c4a40c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:34 +0000
Subject: [PATCH 09/29] fix: XSLT output does not write a prefix that is bound
 to another namespace

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..6830417 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -42,7 +42,10 @@ public:
     if(findPrefix(namespaceURI) != EMPTY_STRING)
       return;
 
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
+    const string_type& bound = findURI(given_prefix);
+    bool remap = (attr && (string_adaptor::empty(given_prefix) ||
+                           (bound != EMPTY_STRING && bound != namespaceURI))) ||
+                 (given_prefix == SC::xmlns);
 
     string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
 
@@ -57,7 +60,14 @@ public:
 
   const string_type& findPrefix(const string_type& uri) const
   {
-    return searchStack(uriStack_, uri);
+    for(typename ScopeStack::const_reverse_iterator ss = uriStack_.rbegin(), se = uriStack_.rend(); ss != se; ss++)
+    {
+      typename Scope::const_iterator i = ss->find(uri);
+      // a prefix which has since been bound to another namespace is no use
+      if(i != ss->end() && findURI(i->second) == uri)
+        return i->second;
+    }
+    return EMPTY_STRING;
   } // findPrefix
 
   typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
-- 
2.43.0


From 031c77c180924ba378cbad48ee8ffad04385ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:34 +0000
Subject: [PATCH 10/29] fix: the Expat reader ends a prefix mapping only at the
 element that declared it

---
 include/SAX/wrappers/saxexpat.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..07d191e 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -689,14 +689,15 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
-  
+
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    // only the element which declared the prefixes ends their mapping
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
-- 
2.43.0


From 4b0f1e3fa932eaf1689e367b62f5b4d198125fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 11/29] fix: parameters being gathered for an xsl:call-template
 leaked into calls made while evaluating them

---
 include/XSLT/impl/xslt_variable_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..8b1c393 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -62,6 +62,8 @@ public:
     stack_(rhs.stack_),
     params_(rhs.params_)
   {
+    // parameters being gathered for a call are not for any call made from the copy
+    params_.back().clear();
   } // VariableStack
 
   void pushScope()
-- 
2.43.0


From 2f7442fdb6bc1d8417cee9626056dfbb9f1e93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 12/29] fix: a stylesheet parameter given from outside was
 declared with a fixed precedence, clashing with declarations in other modules

---
 include/XSLT/impl/xslt_execution_context.hpp |  2 +-
 include/XSLT/impl/xslt_variable_stack.hpp    | 29 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..f08dfdf 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -194,7 +194,7 @@ void ExecutionContext<string_type, string_adaptor>::unpassParam(const string_typ
 template<class string_type, class string_adaptor>
 void ExecutionContext<string_type, string_adaptor>::declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param) 
 {
-  if(!stack_.findPassedParam(param.name()))
+  if(!stack_.findPassedParam(param.name(), param.precedence()))
     stack_.declareParam(VariableClosure<string_type, string_adaptor>::create(param, node, *this)); 
 } // declareParam
 
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index 8b1c393..6dfb02c 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -40,6 +40,31 @@ private:
   bool operator==(const Variable_instance&) const;
 }; // Variable_instance
 
+// a passed parameter takes the precedence of the xsl:param that receives it
+template<class string_type, class string_adaptor>
+class PassedParam : public Variable_instance<string_type, string_adaptor>
+{
+public:
+  typedef typename ScopeType<string_type, string_adaptor>::Scope Scope;
+  typedef typename ScopeType<string_type, string_adaptor>::Variable_instance_ptr Variable_instance_ptr;
+
+  PassedParam(Variable_instance_ptr param, const Precedence& precedence) :
+    param_(param),
+    precedence_(precedence)
+  {
+  } // PassedParam
+
+  virtual const string_type& name() const { return param_->name(); }
+  virtual const Precedence& precedence() const { return precedence_; }
+  virtual Arabica::XPath::XPathValue<string_type, string_adaptor> value() const { return param_->value(); }
+
+  virtual void injectGlobalScope(const Scope& scope) const { param_->injectGlobalScope(scope); }
+
+private:
+  Variable_instance_ptr param_;
+  Precedence precedence_;
+}; // class PassedParam
+
 template<class string_type, class string_adaptor>
 class VariableStack : public Arabica::XPath::VariableResolver<string_type, string_adaptor>
 {
@@ -105,13 +130,13 @@ public:
     params_.back().erase(name);
   } // unpassParam
 
-  bool findPassedParam(const string_type& name)
+  bool findPassedParam(const string_type& name, const Precedence& precedence)
   {
     typename ScopeStack::reverse_iterator p = params_.rbegin()+1;    
     typename Scope::iterator i = p->find(name);
     if(i == p->end())
       return false;
-    declareVariable(i->second);
+    declareVariable(Variable_instance_ptr(new PassedParam<string_type, string_adaptor>(i->second, precedence)));
     return true;
   } // findPassedParam
 
-- 
2.43.0


From a4155948d92923a6489f1bf758359ba6061f49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 13/29] fix: an attribute removed from its element, or
 replaced, has no owner element

---
 include/DOM/Simple/AttrImpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..90ae364 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -61,7 +61,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     virtual DOMElement_implT* getOwnerElement() const
     {
-      return ownerElement_;
+      return isOrphaned() ? 0 : ownerElement_;
     } // getOwnerElement
 
     /////////////////////////////////////////////////////
@@ -162,12 +162,12 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     void setSpecified(bool specified) { specified_ = specified; }
 
-    bool isOrphaned()
+    bool isOrphaned() const
     {
       if(!ownerElement_)
 	return true;
 
-      return NodeT::ownerDoc_->isOrphaned(this);
+      return NodeT::ownerDoc_ && NodeT::ownerDoc_->isOrphaned(const_cast<AttrImpl*>(this));
     } // isOrphaned
   
   protected:
-- 
2.43.0


From 1ca56b8b79b38784490f96d190c3010400d54994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 14/29] fix: an attribute refused because of its document is
 not given an owner

---
 include/DOM/Simple/AttrMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..4afec72 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -41,6 +41,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
       return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
@@ -136,6 +137,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
       return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
-- 
2.43.0


From 009eb3dbe153ab9893841acc8a373b0c1bd898d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 15/29] fix: refuse to put a node which is not an attribute
 into an attribute map

---
 include/DOM/Simple/AttrMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 4afec72..19400c1 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -38,6 +38,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     virtual DOMNode_implT* setNamedItem(DOMNode_implT* newAttr)
     {
       AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      checkIsAttribute(attr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
@@ -134,6 +135,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     virtual DOMNode_implT* setNamedItemNS(DOMNode_implT* newAttr)
     {
       AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      checkIsAttribute(attr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
@@ -217,6 +219,12 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return 0;
     } // getDefaultAttrs
 
+    void checkIsAttribute(AttrImplT* attr)
+    {
+      if(!attr)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkIsAttribute
+
     bool alreadyHere(AttrImplT* attr)
     {
       return ((!attr->isOrphaned()) && (attr->getOwnerElement() == ownerElement_));
-- 
2.43.0


From 6e1125a4c0af9df3986eb1eb734c6816169a041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 16/29] fix: removeAttributeNode removes the attribute it is
 given, not another of the same name

---
 include/DOM/Simple/AttrMap.hpp          | 3 ++-
 include/DOM/Simple/NamedNodeMapImpl.hpp | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 19400c1..fe302e8 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -96,7 +96,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr));
+      createDefault(oldAttr->getNodeName());
       return oldAttr;
     } // removeAttributeNode
 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..d09dfeb 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -163,6 +163,12 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     } // item
 
   protected:
+    DOMNode_implT* removeItem(NodeImplT* node)
+    {
+      throwIfReadOnly();
+      return removeNode(std::find(nodes_.begin(), nodes_.end(), node));
+    } // removeItem
+
     void throwIfReadOnly() const
     {
       if(readOnly_)
-- 
2.43.0


From 69daf0b9691c78be9b112c491d6230add72b57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 17/29] fix: setAttribute changes the value of the attribute
 which is there, as the DOM says, instead of replacing it by one without its
 namespace

---
 include/DOM/Simple/AttrMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index fe302e8..6d9ae81 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -72,6 +72,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMNode_implT* attr = NamedNodeMapImplT::getNamedItem(name);
+      if(attr)
+      {
+        attr->setNodeValue(value);
+        return;
+      } // if ...
+
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
-- 
2.43.0


From a6685fcb8d29bf7e17c529df49c7933428957396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 18/29] fix: setting an attribute which has no local name
 through a namespace call replaced any other such attribute

---
 include/DOM/Simple/NamedNodeMapImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index d09dfeb..0fbded5 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,7 +138,9 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
-      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
+      // a node made by a DOM Level 1 call has no local name, and is found by its name
+      const stringT& localName = string_adaptorT::empty(arg->getLocalName()) ? arg->getNodeName() : arg->getLocalName();
+      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), localName), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
-- 
2.43.0


From ab95abcb743577f5337fdbc014b220eedaddb514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:06 +0000
Subject: [PATCH 19/29] fix: TextCoalescer delivers the text it holds before
 every event that ends the run, and none left from a failed parse

---
 include/SAX/filter/TextCoalescer.hpp | 30 ++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..27bb503 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -34,6 +34,30 @@ public:
   {
   } // TextCoalescer
 
+  virtual void startDocument()
+  {
+    buffer_ = string_adaptor::empty_string(); // left over when an earlier parse failed
+    XMLFilterT::startDocument();
+  } // startDocument
+
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
+  virtual void endPrefixMapping(const string_type& prefix)
+  {
+    flush();
+    XMLFilterT::endPrefixMapping(prefix);
+  } // endPrefixMapping
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
@@ -64,6 +88,12 @@ public:
     XMLFilterT::processingInstruction(target, data);
   } // processingInstruction
 
+  virtual void skippedEntity(const string_type& name)
+  {
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
   virtual void startCDATA() 
   { 
     flush();
-- 
2.43.0


From 4a9aad5914b5976bc01df01ee272564eb1f455c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:51 +0000
Subject: [PATCH 20/29] fix: URI references are parsed and resolved as RFC 3986
 describes

Resolving ../ above the start of a relative base threw out_of_range, a
relative reference against an empty base path read before its start, a port
was lost when no path followed it, dot segments were removed wrongly at the
edges, any colon in a relative path was taken for the end of a scheme,
references of only a query or fragment and network-path references were
merged as paths.
---
 include/io/uri.hpp |   3 +-
 src/io/uri.cpp     | 179 ++++++++++++++++++++++++++++++---------------
 2 files changed, 123 insertions(+), 59 deletions(-)

diff --git a/include/io/uri.hpp b/include/io/uri.hpp
index 3ffee5f..409c2f2 100644
--- a/include/io/uri.hpp
+++ b/include/io/uri.hpp
@@ -70,8 +70,9 @@ namespace Arabica
       
     private:
       void parse(const std::string& URI);
+      void set_absolute();
       void parse_uri(const std::string& URI);
-      std::string::const_iterator parseAuthority(const std::string::const_iterator& u, const std::string::const_iterator& ue);
+      void parseAuthority(const std::string& URI, size_t from);
       void absolutise(URI& relURI);
       void combinePath(const std::string& path);
 
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..a078830 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -28,6 +28,68 @@ namespace {
 
     return ZERO;
   } // wellKnownPort
+
+  bool is_alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
+
+  // length of the scheme, or 0 if there is none
+  size_t scheme_length(const std::string& uri)
+  {
+    size_t d = 0;
+    while(d < uri.length() && (is_alpha(uri[d]) ||
+          (d > 0 && ((uri[d] >= '0' && uri[d] <= '9') || uri[d] == '+' || uri[d] == '-' || uri[d] == '.'))))
+      ++d;
+    return (d < uri.length() && uri[d] == ':') ? d : 0;
+  } // scheme_length
+
+  bool starts_authority(const std::string& uri, size_t from)
+  {
+    return from + 1 < uri.length() && uri[from] == FORWARD_SLASH && uri[from+1] == FORWARD_SLASH;
+  } // starts_authority
+
+  // where the path ends and the query or fragment, if any, begins
+  size_t path_end(const std::string& path)
+  {
+    size_t end = 0;
+    while(end < path.length() && path[end] != '?' && path[end] != '#')
+      ++end;
+    return end;
+  } // path_end
+
+  // RFC 3986 5.2.4, except that a relative path keeps the segments which climb above its start
+  std::string remove_dot_segments(const std::string& path)
+  {
+    const size_t root = (!path.empty() && path[0] == FORWARD_SLASH) ? 1 : 0;
+    std::string out = path.substr(0, root);
+    size_t from = root;
+    while(from < path.length())
+    {
+      size_t end = from;
+      while(end < path.length() && path[end] != FORWARD_SLASH)
+        ++end;
+      const std::string segment = path.substr(from, end - from);
+
+      size_t last = out.length();
+      if(segment == "..")
+      {
+        if(last > root)
+          --last;
+        while(last > root && out[last-1] != FORWARD_SLASH)
+          --last;
+      } // if ...
+
+      if(segment == ".." && last < out.length() && out.substr(last) != "../")
+        out = out.substr(0, last);
+      else if(segment != "." && (segment != ".." || root == 0))
+      {
+        out += segment;
+        if(end < path.length())
+          out += FORWARD_SLASH;
+      } // if ...
+
+      from = end + 1;
+    } // while ...
+    return out;
+  } // remove_dot_segments
 } // namespace 
 
 URI::URI(const std::string& uri) :
@@ -43,11 +105,8 @@ URI::URI(const URI& base, const std::string& relativeUrl) :
   port_(base.port_),
   is_absolute_(base.is_absolute_)
 {
-  if(!relativeUrl.empty())
-  {
-    URI relUrl(relativeUrl);
-    absolutise(relUrl);
-  } // if ... 
+  URI relUrl(relativeUrl);
+  absolutise(relUrl);
 } // URI         
 
 const std::string& URI::port() const
@@ -62,7 +121,7 @@ std::string URI::as_string() const
   std::string str;
   if(!scheme_.empty())
     str.append(scheme_).append(COLON);
-  if(is_absolute_)
+  if(is_absolute_ || !host_.empty())
     str.append("//");
   if(!host_.empty())
   {
@@ -83,20 +142,29 @@ void fixSlashes(std::string& path)
 void URI::parse(const std::string& uri)
 {
   parse_uri(uri);
+  set_absolute();
+} // parse
 
+void URI::set_absolute()
+{
   is_absolute_ = (!scheme_.empty() && !host_.empty()) ||
     (((scheme_ == SCHEME_FILE) && (!path_.empty())) && 
-     ((path_[0] == FORWARD_SLASH) || (path_[1] == ':')));
-} // parse
+     ((path_[0] == FORWARD_SLASH) || (path_.length() > 1 && path_[1] == ':')));
+} // set_absolute
 
 void URI::parse_uri(const std::string& uri)
 {
   // I'd like to use something a bit stronger - http://code.google.com/p/uri-grammar/
   // but that would put a Boost Spirit dependence right in the core, which I'm not prepared to do at the moment
 
-  size_t d = uri.find_first_of(COLON);
-  if(d == std::string::npos)
+  size_t d = scheme_length(uri);
+  if(d == 0)
   {
+    if(starts_authority(uri, 0))
+    {
+      parseAuthority(uri, 2);
+      return;
+    } // if ...
     path_ = uri;
     fixSlashes(path_);
     return;
@@ -113,37 +181,31 @@ void URI::parse_uri(const std::string& uri)
 
   scheme_ = uri.substr(0, d);
 
-  std::string::const_iterator u = uri.begin() + d;
-  std::string::const_iterator ue = uri.end();
-
-  ++u;
-  if(*u == FORWARD_SLASH && *(u+1) == FORWARD_SLASH)
-  {
-    u += 2;
-    u = parseAuthority(u, ue);
-  } // if ...
-
-  path_.append(u, ue);
+  if(starts_authority(uri, d+1))
+    parseAuthority(uri, d+3);
+  else
+    path_ = uri.substr(d+1);
 } // parse
 
-std::string::const_iterator URI::parseAuthority(const std::string::const_iterator& u, 
-						const std::string::const_iterator& ue)
+void URI::parseAuthority(const std::string& uri, size_t from)
 {
-  std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
+  size_t end = from;
+  while(end < uri.length() && uri[end] != FORWARD_SLASH && uri[end] != '?' && uri[end] != '#')
+    ++end;
 
-  std::string::const_iterator colon = std::find(u, slash, ':');
-  host_.append(u, colon);
+  size_t port = end;
+  while(port > from && uri[port-1] >= '0' && uri[port-1] <= '9')
+    --port;
 
-  if(colon != slash)
-    port_.append(colon+1, slash);
+  if(port > from && uri[port-1] == ':')
+  {
+    host_ = uri.substr(from, port-1-from);
+    port_ = uri.substr(port, end-port);
+  }
+  else
+    host_ = uri.substr(from, end-from);
 
-  return slash;
+  path_ = uri.substr(end);
 } // parseAuthority
 
 bool compatible_schemes(const std::string& scheme,
@@ -160,38 +222,39 @@ void URI::absolutise(URI& relative)
 {
   if((relative.is_absolute()) || 
      !compatible_schemes(scheme_, relative.scheme()))
-  {
     swap(relative);
-    return;
+  else if(!relative.host_.empty())
+  {
+    host_ = relative.host_;
+    port_ = relative.port_;
+    path_ = relative.path_;
   }
-
-  if(relative.path_[0] == FORWARD_SLASH)
+  else if(!relative.path_.empty() && relative.path_[0] == FORWARD_SLASH)
     path_ = relative.path_;
   else 
     combinePath(relative.path_);
+
+  size_t end = path_end(path_);
+  path_ = remove_dot_segments(path_.substr(0, end)) + path_.substr(end);
+
+  set_absolute();
 } // absolutise
 
 void URI::combinePath(const std::string& relPath)
 {
-  if(*(path_.rbegin()) != FORWARD_SLASH)
-    path_.erase(path_.rfind(FORWARD_SLASH)+1);
-
-  std::string::size_type from = path_.length() - 1;
-  path_.append(relPath);
-
-  size_t dots = path_.find("/../", from);
-  while(dots != std::string::npos)
+  size_t keep = path_end(path_);
+  if(relPath.empty() || relPath[0] == '#')
+    keep = path_.find('#');
+  else if(relPath[0] != '?')
   {
-    size_t preceding_slash = (dots > 0) ? path_.rfind(FORWARD_SLASH, dots-1) : 0;
-    path_.erase(preceding_slash, dots+3-preceding_slash);
-    dots = path_.find("/../", preceding_slash);
-  } // while
+    while(keep > 0 && path_[keep-1] != FORWARD_SLASH)
+      --keep;
+    if(keep == 0 && !host_.empty())
+    {
+      path_ = FORWARD_SLASH + relPath;
+      return;
+    } // if ...
+  } // if ...
 
-  size_t dot = path_.find("/./");
-  while(dot != std::string::npos)
-  {
-    path_.erase(dot, 2);
-    dot = path_.find("/./", dot);
-  }
+  path_ = path_.substr(0, keep) + relPath;
 } // combinePath
-
-- 
2.43.0


From 4ef1428ae81466870903b98c722c17fd32a2522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 21/29] fix: the tree walker visits the nodes the DOM says, and
 stays under its root

---
 include/DOM/Traversal/TreeWalkerImpl.hpp | 94 ++++++++++++------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..d0c8a9f 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -89,7 +89,7 @@ public:
 
   node_t nextSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
+    node_t n = getNextSiblingImpl(currentNode_);
     if(n != 0)
       currentNode_ = n;
     return n;
@@ -100,17 +100,15 @@ public:
     node_t n = getPreviousSiblingImpl(currentNode_);
     if(n != 0)
     {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
+      for(node_t last_child = getLastChildImpl(n); last_child != 0; last_child = getLastChildImpl(n))
+        n = last_child;
     }
     else
-    {
-      n = getParentNodeImpl(n);
-      if(n != 0)
-        currentNode_ = n;
-      return n;
-    }
+      n = getParentNodeImpl(currentNode_);
+
+    if(n != 0)
+      currentNode_ = n;
+    return n;
   }
 
   node_t nextNode()
@@ -149,13 +147,13 @@ public:
   }
 
 protected:
-  node_t getParentNodeImpl(node_t& node)
+  node_t getParentNodeImpl(const node_t& node)
   {
     if(node == 0 || node == root_)
       return empty_node();
 
     node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
+    if (new_node == 0)
       return empty_node();
 
     filter_result_t accept = acceptNode(new_node);
@@ -165,7 +163,7 @@ protected:
       return getParentNodeImpl(new_node);
   }
 
-  node_t getNextSiblingImpl(node_t& node)
+  node_t getNextSiblingImpl(const node_t& node)
   {
     if(node == 0 || node == root_)
       return empty_node();
@@ -178,10 +176,10 @@ protected:
         return empty_node();
 
       filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getNextSiblingImpl(new_node);
-      else
+      if (filter_t::FILTER_ACCEPT == accept)
         return empty_node();
+      else
+        return getNextSiblingImpl(new_node);
     }
 
     filter_result_t accept = acceptNode(new_node);
@@ -190,7 +188,7 @@ protected:
     else if (filter_t::FILTER_SKIP == accept)
     {
       node_t child = getFirstChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
+      if (child == 0)
         return getNextSiblingImpl(new_node);
       else
         return child;
@@ -199,7 +197,7 @@ protected:
       return getNextSiblingImpl(new_node);
   }
   
-  node_t getPreviousSiblingImpl(node_t& node)
+  node_t getPreviousSiblingImpl(const node_t& node)
   {
     if(node == 0 || node == root_)
       return empty_node();
@@ -212,10 +210,10 @@ protected:
         return empty_node();
      
       filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getPreviousSiblingImpl(new_node);
-      else
+      if (filter_t::FILTER_ACCEPT == accept)
         return empty_node();
+      else
+        return getPreviousSiblingImpl(new_node);
     }
 
     filter_result_t accept = acceptNode(new_node);
@@ -224,7 +222,7 @@ protected:
     else if (filter_t::FILTER_SKIP == accept)
     {
       node_t child = getLastChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
+      if (child == 0)
         return getPreviousSiblingImpl(new_node);
       else
         return child;
@@ -233,40 +231,44 @@ protected:
       return getPreviousSiblingImpl(new_node);
   }
 
-  node_t getFirstChildImpl(node_t& node)
+  node_t getFirstChildImpl(const node_t& node)
   {
     if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
 
-    node_t new_node = node.getFirstChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getFirstChildImpl(new_node);
-    else
-      return getNextSiblingImpl(new_node);
+    for (node_t new_node = node.getFirstChild(); new_node != 0; new_node = new_node.getNextSibling())
+    {
+      filter_result_t accept = acceptNode(new_node);
+      if (filter_t::FILTER_ACCEPT == accept)
+        return new_node;
+      else if (filter_t::FILTER_SKIP == accept)
+      {
+        node_t child = getFirstChildImpl(new_node);
+        if (child != 0)
+          return child;
+      }
+    }
+    return empty_node();
   }
 
-  node_t getLastChildImpl(node_t& node)
+  node_t getLastChildImpl(const node_t& node)
   {
     if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
 
-    node_t new_node = node.getLastChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getLastChildImpl(new_node);
-    else
-      return getPreviousSiblingImpl(new_node);
+    for (node_t new_node = node.getLastChild(); new_node != 0; new_node = new_node.getPreviousSibling())
+    {
+      filter_result_t accept = acceptNode(new_node);
+      if (filter_t::FILTER_ACCEPT == accept)
+        return new_node;
+      else if (filter_t::FILTER_SKIP == accept)
+      {
+        node_t child = getLastChildImpl(new_node);
+        if (child != 0)
+          return child;
+      }
+    }
+    return empty_node();
   }
   
   //node-filter will only be checked if what-to-show succeeds
-- 
2.43.0


From 1cea6a28bfa33bc594c8c8822c8389fafd19bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 22/29] fix: element lists refresh themselves before an index
 is checked, and setPrefix counts as a change

---
 include/DOM/Simple/ElementByTagImpl.hpp | 6 +++---
 include/DOM/Simple/ElementNSImpl.hpp    | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..79c5e65 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..f5bbd8c 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -78,6 +78,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
@@ -89,6 +90,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
-- 
2.43.0


From 13b7b4913df70da9a2a0e55dfc01518c17b2107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 23/29] fix: xsl:sort keeps document order among ties whichever
 way the node-set was selected

---
 include/XSLT/impl/xslt_sort.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index b02aa77..6260f74 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -195,12 +195,10 @@ protected:
             NodeSet& nodes, 
             ExecutionContext<string_type, string_adaptor>& context) const
   {
+    if(!nodes.forward())
+      nodes.to_document_order();
     if(!sort_)
-    {
-      if(!nodes.forward())
-        nodes.to_document_order();
       return;
-    }
 
     sort_->set_context(node, context);
     std::stable_sort(nodes.begin(), nodes.end(), SortP(*sort_));
-- 
2.43.0


From 6dcf3ea4de25cb58f3e0135daba618d42214db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 24/29] fix: relational comparison of an empty node-set, and of
 a node-set with a boolean

---
 include/XPath/impl/xpath_object.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..2f59288 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -666,12 +666,18 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSetWith(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  // a boolean is compared with the node-set converted to a boolean, not with each of its nodes
+  if(rhs.type() == BOOL)
+    return Op()(lhs.asBool() ? 1.0 : 0.0, rhs.asNumber());
+
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   return std::find_if(lns.begin(), 
                       lns.end(), 
-- 
2.43.0


From fb5a061a0a343749dd7541606204478c6dec9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 25/29] fix: XPath number formatting, number parsing, mod,
 round and substring follow the Recommendation

---
 include/XPath/impl/xpath_arithmetic.hpp |  2 +-
 include/XPath/impl/xpath_function.hpp   | 23 +++++++------
 include/XPath/impl/xpath_object.hpp     | 33 +++++++++++++------
 include/XPath/impl/xpath_value.hpp      | 44 ++++++++++++++++++++++++-
 4 files changed, 80 insertions(+), 22 deletions(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..0156bb2 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -68,7 +68,7 @@ struct NaN_aware_modulus
 	{	// apply operator% to operands 
     if(isNaN(lhs) || isNaN(rhs)) 
       return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+    return std::fmod(lhs, rhs); 
 	}
 }; // NaN_aware_modulus
 
diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..ecbaaba 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -471,18 +471,21 @@ protected:
     if(string_adaptor::empty(value))
       return string_adaptor::empty_string();
 
-    double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
-
-    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
+    // positions start at 1, and endAt is the first one beyond the substring
+    const double length = static_cast<double>(string_adaptor::length(value));
+    double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext));
+    double endAt = Infinity;
+    if(baseT::argCount() == 3)
+      endAt = startAt + roundNumber(baseT::argAsNumber(2, context, executionContext));
+
+    if(startAt < 1)
+      startAt = 1;
+    if(endAt > length + 1)
+      endAt = length + 1;
+    if(!(startAt < endAt))  // nothing between them, or one of them is not a number
       return string_adaptor::empty_string();
 
-    if(startAt < 0)
-      startAt = 0;
-    if((isInfinite(endAt)) || (endAt > string_adaptor::length(value)))
-      endAt = static_cast<double>(string_adaptor::length(value));
-
-    return string_adaptor::substr(value, static_cast<int>(startAt), static_cast<int>(endAt - startAt));
+    return string_adaptor::substr(value, static_cast<size_t>(startAt) - 1, static_cast<size_t>(endAt - startAt));
   } // evaluate
 }; // SubstringFn
 
diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 2f59288..a400050 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -408,10 +408,13 @@ inline double roundNumber(double value)
 { 
   if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
   {
-    if((value < 0.0) && (value > -0.5))
+    if((value < 0.0) && (value >= -0.5))
       value = -0.0;
     else
-      value = std::floor(value + 0.5);
+    {
+      const double below = std::floor(value);
+      value = (value - below < 0.5) ? below : std::ceil(value);
+    } // if ...
   } // if ...
   return value;
 } // roundNumber
@@ -419,18 +422,28 @@ inline double roundNumber(double value)
 template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
-  try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
-    string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
-    // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
+  string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
+  // an optional minus, digits, and an optional point. '+1.5', '1e5' and 'inf' are 
+  // not numbers according to XPath spec, counter intuitive as that is
+  bool digits = false, point = false;
+  typename string_adaptor::const_iterator b = string_adaptor::begin(n_str);
+  for(typename string_adaptor::const_iterator i = b, e = string_adaptor::end(n_str); i != e; ++i)
+  {
+    if((*i >= '0') && (*i <= '9'))
+      digits = true;
+    else if((*i == '.') && !point)
+      point = true;
+    else if((*i != '-') || (i != b))
       return NaN;
-    
+  } // for ...
+  if(!digits)
+    return NaN;
+
+  try {
     return boost::lexical_cast<double>(n_str);
   } // try
   catch(const boost::bad_lexical_cast&) {
-    return NaN;
+    return (*b == '-') ? Negative_Infinity : Infinity; // too big for a double
   } // catch
 } // stringAsNumber
 
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..f0116a1 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -2,6 +2,11 @@
 #define ARABICA_XPATHIC_XPATH_VALUE_H
 
 #include <string>
+#include <sstream>
+#include <iomanip>
+#include <locale>
+#include <algorithm>
+#include <cmath>
 #include <DOM/Node.hpp>
 #include <boost/lexical_cast.hpp>
 #include <vector>
@@ -112,13 +117,50 @@ public:
       return string_adaptor::construct_from_utf8("Infinity");
     if(isNegativeInfinity(value_))
       return string_adaptor::construct_from_utf8("-Infinity");
-    return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
+    if(value_ == 0)
+      return string_adaptor::construct_from_utf8("0");
+    return string_adaptor::construct_from_utf8(decimal(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
 
   virtual ValueType type() const { return NUMBER; }
 
 private:
+  // the fewest digits which identify the number, without an exponent
+  static std::string decimal(double value)
+  {
+    std::string digits;
+    for(int precision = 0; precision != 17; ++precision)
+    {
+      std::ostringstream os;
+      os.imbue(std::locale::classic());
+      os << std::scientific << std::setprecision(precision) << std::fabs(value);
+      digits = os.str();
+      double back = 0;
+      std::istringstream is(digits);
+      is.imbue(std::locale::classic());
+      is >> back;
+      if(back == std::fabs(value))
+        break;
+    } // for ...
+
+    const size_t e = digits.find('e');
+    int point = boost::lexical_cast<int>(digits.substr(digits[e+1] == '+' ? e+2 : e+1)) + 1;
+    digits.erase(e);
+    digits.erase(std::remove(digits.begin(), digits.end(), '.'), digits.end());
+
+    if(point <= 0)
+    {
+      digits.insert(0, 1 - point, '0');
+      point = 1;
+    } // if ...
+    if(point >= static_cast<int>(digits.size()))
+      digits.append(point - digits.size(), '0');
+    else
+      digits.insert(point, 1, '.');
+    return (value < 0) ? "-" + digits : digits;
+  } // decimal
+
   double value_;
 }; // class NumberValue
 
-- 
2.43.0


From 1c9043950524c7c1f3f8fc72097ce74ef5431529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:13 +0000
Subject: [PATCH 26/29] fix: translate() kept a stale character after a removed
 one

---
 include/XPath/impl/xpath_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index ecbaaba..00fa35a 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -546,7 +546,7 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
-- 
2.43.0


From 5165de9eddf66e9f299bf555c3d663ec48e1e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:41 +0000
Subject: [PATCH 27/29] fix: carriage returns and ]]> in written text and CDATA
 sections survive being read back

---
 include/DOM/io/Stream.hpp     | 55 +++-----------------------
 include/SAX/filter/Writer.hpp | 25 +++++-------
 include/XML/escaper.hpp       | 72 +++++++++++++++++++++++++++++++++++
 3 files changed, 87 insertions(+), 65 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..612c1b3 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -266,62 +266,17 @@ void streamElement(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<s
   }
 } // streamElement
 
-template<class charT, class traitsT>
-void startCDATA(std::basic_ostream<charT, traitsT>& stream)
-{
-  typedef Arabica::text::Unicode<charT> UnicodeT;
-
-  stream << UnicodeT::LESS_THAN_SIGN
-	 << UnicodeT::EXCLAMATION_MARK
-	 << UnicodeT::LEFT_SQUARE_BRACKET
-	 << UnicodeT::CAPITAL_C
-	 << UnicodeT::CAPITAL_D
-	 << UnicodeT::CAPITAL_A
-	 << UnicodeT::CAPITAL_T
-	 << UnicodeT::CAPITAL_A
-	 << UnicodeT::LEFT_SQUARE_BRACKET;
-} // startCDATA
-
-template<class charT, class traitsT>
-void endCDATA(std::basic_ostream<charT, traitsT>& stream)
-{
-  typedef Arabica::text::Unicode<charT> UnicodeT;
-
-  stream << UnicodeT::RIGHT_SQUARE_BRACKET
-	 << UnicodeT::RIGHT_SQUARE_BRACKET
-	 << UnicodeT::GREATER_THAN_SIGN;
-} // endCDATA
-
 template<class stringT, class string_adaptorT, class charT, class traitsT>
 void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<stringT, string_adaptorT>& node)
 {
-  typedef typename string_adaptorT::size_type size_type;
-  static stringT endMarker = string_adaptorT::construct_from_utf8("]]>");
-
-  StreamImpl::startCDATA(stream);
+  Arabica::XML::cdata_escaper<charT, traitsT> cdata(stream);
+  cdata.start();
 
   const stringT value = node.getNodeValue();
-  size_type breakAt = string_adaptorT::find(value, endMarker);
-
-  if(breakAt == string_adaptorT::npos())
-    stream << value;
-  else
-  {
-    size_type start = 0;
-    do
-    {
-      breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
-      StreamImpl::endCDATA(stream);
-      start = breakAt;
-      StreamImpl::startCDATA(stream);
-      breakAt = string_adaptorT::find(value, endMarker, breakAt);
-    } 
-    while(breakAt != string_adaptorT::npos());
-    stream << string_adaptorT::substr(value, start);
-  } // if ...
+  for(typename string_adaptorT::const_iterator i = string_adaptorT::begin(value), e = string_adaptorT::end(value); i != e; ++i)
+    cdata(*i);
 
-  StreamImpl::endCDATA(stream);
+  cdata.end();
 } // streamCDATA
 
 } // namespace StreamImpl
diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..e3392e5 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -34,6 +34,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     typedef Arabica::text::Unicode<charT> UnicodeT;
     typedef Arabica::XML::text_escaper<charT, traitsT> text_escaperT;
     typedef Arabica::XML::attribute_escaper<charT, traitsT> attribute_escaperT;
+    typedef Arabica::XML::cdata_escaper<charT, traitsT> cdata_escaperT;
   private:
     typedef NamespaceConstants<string_type, string_adaptor> NamespaceConstantsT;
     typedef AttributeType<string_type, string_adaptor> AttributeTypeT;
@@ -52,6 +53,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       indent_(indent),
       depth_(0),
       stream_(&stream),
+      cdata_(stream),
       encoding_(),
       lastTag_(startTag)
     {
@@ -66,6 +68,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       indent_(indent),
       depth_(0),
       stream_(&stream),
+      cdata_(stream),
       encoding_(),
       lastTag_(startTag)
     {
@@ -79,6 +82,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       indent_(indent),
       depth_(0),
       stream_(&stream),
+      cdata_(stream),
       encoding_(encoding),
       lastTag_(startTag)
     {
@@ -93,6 +97,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
       indent_(indent),
       depth_(0),
       stream_(&stream),
+      cdata_(stream),
       encoding_(encoding),
       lastTag_(startTag)
     {
@@ -163,6 +168,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
     int indent_;
     int depth_;
     ostreamT* stream_;
+    cdata_escaperT cdata_;
     string_type encoding_;
     enum { startTag, endTag, docTag } lastTag_;
 }; // class Writer
@@ -345,7 +351,8 @@ void Writer<string_type, string_adaptor>::characters(const string_type& ch)
   if(!inCDATA_)
     std::for_each(ch.begin(), ch.end(), text_escaperT(*stream_));
   else
-    *stream_ << ch;
+    for(typename string_type::const_iterator i = ch.begin(), e = ch.end(); i != e; ++i)
+      cdata_(*i);
 
   XMLFilterT::characters(ch);
 } // characters
@@ -474,16 +481,7 @@ void Writer<string_type, string_adaptor>::startCDATA()
 {
   startElementClose();
   inCDATA_ = true;
-
-  *stream_ << UnicodeT::LESS_THAN_SIGN
-           << UnicodeT::EXCLAMATION_MARK
-           << UnicodeT::LEFT_SQUARE_BRACKET
-           << UnicodeT::CAPITAL_C
-           << UnicodeT::CAPITAL_D
-           << UnicodeT::CAPITAL_A
-           << UnicodeT::CAPITAL_T
-           << UnicodeT::CAPITAL_A
-           << UnicodeT::LEFT_SQUARE_BRACKET;
+  cdata_.start();
 
   XMLFilterT::startCDATA();
 } // startCDATA
@@ -492,10 +490,7 @@ template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::endCDATA()
 {
   startElementClose();
-  *stream_ << UnicodeT::RIGHT_SQUARE_BRACKET
-           << UnicodeT::RIGHT_SQUARE_BRACKET
-           << UnicodeT::GREATER_THAN_SIGN;
-
+  cdata_.end();
   inCDATA_ = false;
 
   XMLFilterT::endCDATA();
diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..7bb4d3b 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -46,6 +46,16 @@ class text_escaper
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
 
+      if(ch == UnicodeT::CARRIAGE_RETURN) // otherwise read back as a line feed
+      {
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
+
       stream_ << ch;
     } // operator()
 
@@ -108,6 +118,68 @@ public:
     } // operator()
 }; // attribute_escaper
 
+// writes the content of a CDATA section, which is closed and opened again around
+// what can't appear in one
+template<typename char_type, typename traits_type = std::char_traits<char_type> >
+class cdata_escaper
+{
+  private:
+    typedef char_type charT;
+    typedef traits_type traitsT;
+    typedef std::basic_ostream<charT, traitsT> ostreamT;
+    typedef Arabica::text::Unicode<charT> UnicodeT;
+
+  public:
+    cdata_escaper(ostreamT& stream) : stream_(stream), brackets_(0) { }
+    void start()
+    {
+      stream_ << UnicodeT::LESS_THAN_SIGN
+              << UnicodeT::EXCLAMATION_MARK
+              << UnicodeT::LEFT_SQUARE_BRACKET
+              << UnicodeT::CAPITAL_C
+              << UnicodeT::CAPITAL_D
+              << UnicodeT::CAPITAL_A
+              << UnicodeT::CAPITAL_T
+              << UnicodeT::CAPITAL_A
+              << UnicodeT::LEFT_SQUARE_BRACKET;
+      brackets_ = 0;
+    } // start
+    void operator()(charT ch)
+    {
+      if(ch == UnicodeT::CARRIAGE_RETURN) // would be read back as a line feed
+      {
+        end();
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        start();
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
+      if((ch == UnicodeT::GREATER_THAN_SIGN) && (brackets_ == 2)) // ]]>
+      {
+        end();
+        start();
+      } // if ...
+      if(ch != UnicodeT::RIGHT_SQUARE_BRACKET)
+        brackets_ = 0;
+      else if(brackets_ != 2)
+        ++brackets_;
+      stream_ << ch;
+    } // operator()
+    void end()
+    {
+      stream_ << UnicodeT::RIGHT_SQUARE_BRACKET
+              << UnicodeT::RIGHT_SQUARE_BRACKET
+              << UnicodeT::GREATER_THAN_SIGN;
+    } // end
+
+  private:
+    ostreamT& stream_;
+    int brackets_; // how many ] came last, up to two
+}; // cdata_escaper
+
 } // namespace XML
 } // namespace Arabica
 #endif // ARABICA_UTILS_ESCAPER_HPP
-- 
2.43.0


From 2f07b736c610a8902d6b8fe8973fb2708b9a2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:12 +0000
Subject: [PATCH 28/29] fix: XPath axes on attributes, runs of text, detached
 trees and redeclared namespaces

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 40 ++++++++++++++------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..9cd95d4 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -148,7 +148,7 @@ protected:
       return next;
             
     RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    while(parent != 0 && parent != origin && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -324,7 +324,7 @@ public:
 
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
-    if(context != 0)
+    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
       BaseT::set(context->getFirstChild());
   } // ChildAxisWalker
 
@@ -371,7 +371,7 @@ private:
       return next;
           
     RawNodeT parent = BaseT::get()->getParentNode();
-    while(parent != origin_ && next == 0)
+    while(parent != 0 && parent != origin_ && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -447,7 +447,7 @@ private:
       return next;
           
     RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    while(parent != 0 && parent != context->getOwnerDocument() && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -496,20 +496,21 @@ public:
     xmlns_prefix_(string_adaptor::construct_from_utf8("xmlns")),
     index_(0)
   {
+    std::vector<string_type> seen;
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
       push_back(context, 
                 string_adaptor::construct_from_utf8("xml"), 
                 string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    while((current != 0) && (current->getNodeType() == DOM::Node_base::ELEMENT_NODE))
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
         RawNodeT attr = current->getAttributes()->item(a);
         if(attr->getPrefix() == xmlns_prefix_)
-          push_back(context, attr->getLocalName(), attr->getNodeValue());
+          declaration(context, attr->getLocalName(), attr->getNodeValue(), seen);
         if(attr->getNodeName() == xmlns_prefix_)
-          push_back(context, string_adaptor::empty_string(), attr->getNodeValue());
+          declaration(context, string_adaptor::empty_string(), attr->getNodeValue(), seen);
       } // for ...
       current = current->getParentNode();
     } // while
@@ -532,6 +533,16 @@ public:
   virtual BaseT* clone() const { return new NamespaceAxisWalker(*this); }
 
 private:
+  // only the innermost declaration of a prefix is in scope, and an empty one takes the prefix out of scope
+  void declaration(RawNodeT context, const string_type& prefix, const string_type& uri, std::vector<string_type>& seen)
+  {
+    if(std::find(seen.begin(), seen.end(), prefix) != seen.end())
+      return;
+    seen.push_back(prefix);
+    if(!string_adaptor::empty(uri))
+      push_back(context, prefix, uri);
+  } // declaration
+
   void push_back(RawNodeT context, const string_type& prefix, const string_type& uri)
   {
     RawNodeT node = new NamespaceNodeImpl<string_type, string_adaptor>(context, prefix, uri);
@@ -539,7 +550,14 @@ private:
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs),
+    list_(rhs.list_),
+    xmlns_prefix_(rhs.xmlns_prefix_),
+    index_(rhs.index_)
+  {
+    for(int i = 0; list_[i] != 0; ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
   std::vector<RawNodeT> list_;
   const string_type xmlns_prefix_;
   unsigned int index_;
@@ -630,8 +648,8 @@ private:
       return context;
 
     RawNodeT c = context->getFirstChild();
-    while(c->getNextSibling() != 0)
-      c = c->getNextSibling();
+    for(RawNodeT next = BaseT::findNextSibling(c); next != 0; next = BaseT::findNextSibling(c))
+      c = next;
 
     return getLastDescendant(c);
   } // getLastDescendant
-- 
2.43.0


From 150f57ccaff3f5ca2a68c887848f2a68ed807de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:51 +0000
Subject: [PATCH 29/29] fix: nodes of two document fragments are ordered by
 fragment

---
 include/XPath/impl/xpath_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index a400050..add2d1b 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -104,7 +104,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
-- 
2.43.0

