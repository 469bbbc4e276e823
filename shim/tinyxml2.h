// Stand-in for tinyxml2 (only its shared object is installed, no header): the part of its document object model that
// fiction's readers use, with the same answers for well-formed documents and an error for every other document.
#pragma once
#include <cctype>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace tinyxml2
{
enum XMLError
{
    XML_SUCCESS = 0,
    XML_NO_ATTRIBUTE,
    XML_ERROR_MISMATCHED_ELEMENT,
    XML_ERROR_PARSING,
    XML_ERROR_PARSING_ATTRIBUTE,
    XML_ERROR_PARSING_ELEMENT,
    XML_ERROR_PARSING_TEXT,
    XML_ERROR_EMPTY_DOCUMENT
};

class XMLElement
{
  public:
    const XMLElement* FirstChildElement(const char* name = nullptr) const
    {
        for (const auto& c : children)
        {
            if (!name || c->tag == name)
            {
                return c.get();
            }
        }
        return nullptr;
    }
    XMLElement* FirstChildElement(const char* name = nullptr)
    {
        return const_cast<XMLElement*>(std::as_const(*this).FirstChildElement(name));
    }
    const XMLElement* NextSiblingElement(const char* name = nullptr) const
    {
        if (!parent)
        {
            return nullptr;
        }
        bool seen = false;
        for (const auto& c : parent->children)
        {
            if (seen && (!name || c->tag == name))
            {
                return c.get();
            }
            seen = seen || c.get() == this;
        }
        return nullptr;
    }
    const char* Attribute(const char* name) const
    {
        for (const auto& [k, v] : attributes)
        {
            if (k == name)
            {
                return v.c_str();
            }
        }
        return nullptr;
    }
    // text only counts when it comes before any child element
    const char* GetText() const
    {
        return has_text ? text.c_str() : nullptr;
    }
    const char* Name() const
    {
        return tag.c_str();
    }

    std::string                                      tag{}, text{};
    bool                                             has_text{false};
    std::vector<std::pair<std::string, std::string>> attributes{};
    std::vector<std::unique_ptr<XMLElement>>         children{};
    XMLElement*                                      parent{nullptr};
};

class XMLDocument
{
  public:
    XMLError Parse(const char* xml)
    {
        root  = XMLElement{};
        error = XML_SUCCESS;
        p     = xml;
        skip_space();
        if (!*p)
        {
            return error = XML_ERROR_EMPTY_DOCUMENT;
        }
        parse_content(root, true);
        return error;
    }
    XMLError ErrorID() const
    {
        return error;
    }
    const char* ErrorName() const
    {
        static const char* names[] = {"XML_SUCCESS",
                                      "XML_NO_ATTRIBUTE",
                                      "XML_ERROR_MISMATCHED_ELEMENT",
                                      "XML_ERROR_PARSING",
                                      "XML_ERROR_PARSING_ATTRIBUTE",
                                      "XML_ERROR_PARSING_ELEMENT",
                                      "XML_ERROR_PARSING_TEXT",
                                      "XML_ERROR_EMPTY_DOCUMENT"};
        return names[error];
    }
    XMLElement* FirstChildElement(const char* name = nullptr)
    {
        return root.FirstChildElement(name);
    }

  private:
    XMLElement  root{};
    XMLError    error{XML_SUCCESS};
    const char* p{nullptr};

    void skip_space()
    {
        while (*p && std::isspace(static_cast<unsigned char>(*p)))
        {
            ++p;
        }
    }
    bool starts(const char* s) const
    {
        return std::strncmp(p, s, std::strlen(s)) == 0;
    }
    static bool name_char(char c)
    {
        return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-' || c == '.' || c == ':' || static_cast<unsigned char>(c) >= 128;
    }
    std::string name()
    {
        std::string n;
        while (name_char(*p))
        {
            n += *p++;
        }
        return n;
    }
    static std::string decode(const char* b, const char* e)
    {
        static const std::pair<const char*, char> ents[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
        std::string r;
        while (b < e)
        {
            bool hit = false;
            for (const auto& [s, c] : ents)
            {
                const size_t n = std::strlen(s);
                if (static_cast<size_t>(e - b) >= n && std::strncmp(b, s, n) == 0)
                {
                    r += c;
                    b += n;
                    hit = true;
                    break;
                }
            }
            if (!hit)
            {
                r += *b++;
            }
        }
        return r;
    }
    bool until(const char* mark)
    {
        const char* e = std::strstr(p, mark);
        if (!e)
        {
            error = XML_ERROR_PARSING;
            return false;
        }
        p = e + std::strlen(mark);
        return true;
    }
    bool parse_content(XMLElement& in, bool top)
    {
        for (;;)
        {
            const char* const start = p;
            skip_space();
            if (!*p)
            {
                if (!top)
                {
                    error = XML_ERROR_PARSING;
                }
                return top;
            }
            if (*p != '<')
            {
                const char* e = std::strchr(start, '<');
                if (!e || top)
                {
                    error = XML_ERROR_PARSING_TEXT;
                    return false;
                }
                if (in.children.empty() && !in.has_text)
                {
                    in.text     = decode(start, e);
                    in.has_text = true;
                }
                p = e;
                continue;
            }
            if (starts("<?"))
            {
                if (!until("?>"))
                {
                    return false;
                }
                continue;
            }
            if (starts("<!--"))
            {
                if (!until("-->"))
                {
                    return false;
                }
                continue;
            }
            if (starts("<!"))
            {
                if (!until(">"))
                {
                    return false;
                }
                continue;
            }
            if (starts("</"))
            {
                p += 2;
                const auto n = name();
                skip_space();
                if (*p != '>')
                {
                    error = XML_ERROR_PARSING_ELEMENT;
                    return false;
                }
                ++p;
                if (top || n != in.tag)
                {
                    error = XML_ERROR_MISMATCHED_ELEMENT;
                    return false;
                }
                return true;
            }
            ++p;
            auto el    = std::make_unique<XMLElement>();
            el->tag    = name();
            el->parent = &in;
            if (el->tag.empty())
            {
                error = XML_ERROR_PARSING_ELEMENT;
                return false;
            }
            bool closed = false;
            for (;;)
            {
                skip_space();
                if (starts("/>"))
                {
                    p += 2;
                    closed = true;
                    break;
                }
                if (*p == '>')
                {
                    ++p;
                    break;
                }
                const auto k = name();
                skip_space();
                if (k.empty() || *p != '=')
                {
                    error = XML_ERROR_PARSING_ATTRIBUTE;
                    return false;
                }
                ++p;
                skip_space();
                const char q = *p;
                if (q != '"' && q != '\'')
                {
                    error = XML_ERROR_PARSING_ATTRIBUTE;
                    return false;
                }
                const char* e = std::strchr(p + 1, q);
                if (!e)
                {
                    error = XML_ERROR_PARSING_ATTRIBUTE;
                    return false;
                }
                el->attributes.emplace_back(k, decode(p + 1, e));
                p = e + 1;
            }
            auto& ref = *el;
            in.children.push_back(std::move(el));
            if (!closed && !parse_content(ref, false))
            {
                return false;
            }
        }
    }
};
}  // namespace tinyxml2
