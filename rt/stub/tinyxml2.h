// Small in-memory model of the XML document builder: keeps the tree, hands it over on SaveFile.
#pragma once
#include <string>
#include <vector>
#include <utility>
namespace tinyxml2 {
enum XMLError { XML_SUCCESS = 0, XML_NO_ERROR = 0, XML_ERROR_FILE_COULD_NOT_BE_OPENED = 3 };
class XMLDocument;
class XMLElement;
class XMLText;
class XMLNode {
public:
    std::vector<XMLNode*> kids; std::string name; bool linked;
    explicit XMLNode(const char* n) : name(n), linked(false) {}
    virtual ~XMLNode() {}
    virtual XMLElement* ToElement() { return 0; }
    XMLNode* InsertEndChild(XMLNode* k) { k->linked = true; kids.push_back(k); return k; }
    XMLNode* LinkEndChild(XMLNode* k) { return InsertEndChild(k); }
    XMLNode* InsertFirstChild(XMLNode* k) { k->linked = true; kids.insert(kids.begin(), k); return k; }
};
struct XMLAttr { std::string name, text; long long num; bool isNum; };
class XMLElement : public XMLNode {
public:
    std::vector<XMLAttr> attrs;
    explicit XMLElement(const char* n) : XMLNode(n) {}
    XMLElement* ToElement() { return this; }
    XMLAttr& at(const char* n) {
        for (size_t i = 0; i < attrs.size(); i++) if (attrs[i].name == n) return attrs[i];
        XMLAttr a; a.name = n; a.num = 0; a.isNum = false; attrs.push_back(a); return attrs.back();
    }
    void SetAttribute(const char* n, const char* v) { XMLAttr& a = at(n); a.text = v; a.isNum = false; }
    void num(const char* n, long long v) { XMLAttr& a = at(n); a.num = v; a.isNum = true; a.text.clear(); }
    void SetAttribute(const char* n, int v) { num(n, v); }
    void SetAttribute(const char* n, unsigned v) { num(n, v); }
    void SetAttribute(const char* n, bool v) { num(n, v); }
    void SetText(const char* t);
};
class XMLText : public XMLNode { public: explicit XMLText(const char* t) : XMLNode(t) {} };
class XMLDocument : public XMLNode {
    std::vector<XMLNode*> all;
public:
    XMLDocument() : XMLNode("") {}
    ~XMLDocument() { for (size_t i = 0; i < all.size(); i++) delete all[i]; }
    XMLElement* NewElement(const char* n) { XMLElement* e = new XMLElement(n); all.push_back(e); return e; }
    XMLText* NewText(const char* n) { XMLText* e = new XMLText(n); all.push_back(e); return e; }
    XMLError SaveFile(const char* path, bool = false);
};
}
// supplied by the harness: the document as it would be on disk; false when the file cannot be written
bool symx_xml_saved(const std::string& path, tinyxml2::XMLDocument& doc);
inline tinyxml2::XMLError tinyxml2::XMLDocument::SaveFile(const char* path, bool) { return symx_xml_saved(path, *this) ? XML_SUCCESS : XML_ERROR_FILE_COULD_NOT_BE_OPENED; }
