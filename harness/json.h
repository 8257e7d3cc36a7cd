// Minimal JSON value, parser and typed writer used by the drivers.
// Strings are byte strings: code points 0..255 map to single bytes both ways.
#ifndef VJSON_H
#define VJSON_H
#include <string>
#include <vector>
#include <map>
#include <utility>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <stdexcept>

struct HarnessError { std::string what; HarnessError(const std::string &w):what(w){} };

struct J
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t;
    double n; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J> > o;
    J():t(NUL),n(0){}
    const J & operator[](size_t i) const { if (t != ARR || i >= a.size()) throw HarnessError("missing argument"); return a[i]; }
    size_t size() const { return t == ARR ? a.size() : o.size(); }
    double D() const { if (t != NUM && t != BOOL) throw HarnessError("number expected"); return n; }
    int I() const { return (int) D(); }
    const std::string & S() const { if (t != STR) throw HarnessError("string expected"); return s; }
    std::vector<double> VD() const { std::vector<double> r; if (t != ARR) throw HarnessError("array expected"); for (size_t i=0;i<a.size();i++) r.push_back(a[i].D()); return r; }
    std::vector<int> VI() const { std::vector<int> r; if (t != ARR) throw HarnessError("array expected"); for (size_t i=0;i<a.size();i++) r.push_back(a[i].I()); return r; }
    std::vector<std::string> VS() const { std::vector<std::string> r; if (t != ARR) throw HarnessError("array expected"); for (size_t i=0;i<a.size();i++) r.push_back(a[i].S()); return r; }
    std::map<std::string,double> MD() const { std::map<std::string,double> r; if (t != OBJ) throw HarnessError("object expected"); for (size_t i=0;i<o.size();i++) r[o[i].first] = o[i].second.D(); return r; }
};

struct JParser
{
    const char *p, *e;
    JParser(const std::string &s):p(s.data()),e(s.data()+s.size()){}
    void ws(){ while (p<e && (*p==' '||*p=='\t'||*p=='\r'||*p=='\n')) p++; }
    void fail(){ throw HarnessError("bad json"); }
    std::string str()
    {
        std::string r;
        if (p>=e || *p!='"') fail();
        p++;
        while (p<e && *p!='"')
        {
            if (*p=='\\')
            {
                p++; if (p>=e) fail();
                switch(*p)
                {
                    case 'n': r+='\n'; break; case 't': r+='\t'; break; case 'r': r+='\r'; break;
                    case 'b': r+='\b'; break; case 'f': r+='\f'; break;
                    case 'u': { if (e-p<5) fail(); r += (char)(unsigned char) strtol(std::string(p+1,4).c_str(),0,16); p+=4; break; }
                    default: r+=*p;
                }
                p++;
            }
            else r+=*p++;
        }
        if (p>=e) fail();
        p++;
        return r;
    }
    J parse()
    {
        ws(); J v;
        if (p>=e) fail();
        if (*p=='"'){ v.t=J::STR; v.s=str(); return v; }
        if (*p=='['){ v.t=J::ARR; p++; ws(); if (p<e&&*p==']'){p++;return v;}
            for(;;){ v.a.push_back(parse()); ws(); if(p>=e) fail(); if(*p==','){p++;continue;} if(*p==']'){p++;break;} fail(); } return v; }
        if (*p=='{'){ v.t=J::OBJ; p++; ws(); if (p<e&&*p=='}'){p++;return v;}
            for(;;){ ws(); std::string k=str(); ws(); if(p>=e||*p!=':') fail(); p++; v.o.push_back(std::make_pair(k,parse())); ws(); if(p>=e) fail(); if(*p==','){p++;continue;} if(*p=='}'){p++;break;} fail(); } return v; }
        if (!strncmp(p,"true",4)){p+=4;v.t=J::BOOL;v.n=1;return v;}
        if (!strncmp(p,"false",5)){p+=5;v.t=J::BOOL;v.n=0;return v;}
        if (!strncmp(p,"null",4)){p+=4;return v;}
        char *q; v.t=J::NUM; v.n=strtod(p,&q); if (q==p) fail(); p=q; return v;
    }
};

inline void W(std::string &o, double d)
{
    char b[40];
    if (d!=d) { o += "NaN"; return; }
    if (d-d != 0.0) { o += d>0 ? "Infinity" : "-Infinity"; return; }
    snprintf(b,sizeof b,"%.17g",d); o += b;
}
inline void W(std::string &o, int d){ char b[24]; snprintf(b,sizeof b,"%d",d); o+=b; }
inline void W(std::string &o, long d){ char b[24]; snprintf(b,sizeof b,"%ld",d); o+=b; }
inline void W(std::string &o, bool d){ o += d ? "true" : "false"; }
inline void W(std::string &o, const std::string &s)
{
    o+='"';
    for (size_t i=0;i<s.size();i++)
    {
        unsigned char c=s[i];
        if (c=='"'||c=='\\'){ o+='\\'; o+=(char)c; }
        else if (c<32||c>126){ char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o+=b; }
        else o+=(char)c;
    }
    o+='"';
}
inline void W(std::string &o, const char *s){ W(o, std::string(s)); }
template<class A,class B> void W(std::string &o, const std::pair<A,B> &p);
template<class T> void W(std::string &o, const std::vector<T> &v);
inline void WK(std::string &o, const std::string &k){ W(o,k); }
inline void WK(std::string &o, int k){ o+='"'; W(o,k); o+='"'; }
inline void WK(std::string &o, double k){ o+='"'; W(o,k); o+='"'; }
template<class K,class V> void W(std::string &o, const std::map<K,V> &m)
{
    o+='{'; bool f=true;
    for (typename std::map<K,V>::const_iterator it=m.begin(); it!=m.end(); ++it)
    { if(!f) o+=','; f=false; WK(o,it->first); o+=':'; W(o,it->second); }
    o+='}';
}
template<class A,class B> void W(std::string &o, const std::pair<A,B> &p){ o+='['; W(o,p.first); o+=','; W(o,p.second); o+=']'; }
template<class T> void W(std::string &o, const std::vector<T> &v)
{ o+='['; for (size_t i=0;i<v.size();i++){ if(i) o+=','; T x=v[i]; W(o,x);} o+=']'; }
#endif
