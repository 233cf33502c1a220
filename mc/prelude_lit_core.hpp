namespace vf
{
  template <class> struct pack { static const char* p() { return 0; } enum { n = -1 }; };
  template <char... Cs> struct pack<string<Cs...> >
  {
    static const char* p() { static const char v[] = { Cs..., 0 }; return v; }
    enum { n = sizeof...(Cs) };
  };
  inline void litcmp(int id, const char* p, int n, const char* s, int len)
  {
    begin(id);
    num(n);
    if (n != len) out += " wrong length";
    else
    {
      int i = 0;
      while (i < n && p[i] == s[i]) ++i;
      if (i == n) out += " same"; else { out += " differs at "; num(i); out += " is "; num(p[i]); }
    }
    end();
  }
  template <class X> void lits(int id, const char* s, int len) { litcmp(id, pack<X>::p(), pack<X>::n, s, len); }
}
