// P22: name patterns match like shell globs.
#include "pbt.h"
#include "StringPattern.h"
#include <sstream>
using namespace pbt;
using std::string;
using std::vector;

pbt::Info pbt::info = {"P22",
	"Patterns over a 2-4 letter alphabet (so that literals overlap themselves) with up to 5 '*' runs and up to 4 "
	"alternatives; strings are derived from the pattern (wildcards expanded by random text) and then possibly "
	"mutated, or independent. Non-trivial: pattern has a wildcard between or around literals and the string is non-empty.",
	"Alternatives are non-empty (no leading, trailing or doubled '|')."};

namespace
{
// reference: dynamic programming over one alternative
bool glob(const string& p, const string& s)
{
	vector<char> row(s.size() + 1, 0);
	row[0] = 1;
	for(char ch : p)
	{
		vector<char> next(s.size() + 1, 0);
		if(ch == '*')
		{
			char any = 0;
			for(size_t i = 0; i <= s.size(); ++i)
			{
				any = any | row[i];
				next[i] = any;
			}
		}
		else
		{
			for(size_t i = 0; i < s.size(); ++i)
			{
				next[i + 1] = row[i] && s[i] == ch;
			}
		}
		row = next;
	}
	return row[s.size()];
}
bool alternatives(const string& p, const string& s)
{
	size_t i = 0;
	while(true)
	{
		size_t j = p.find('|', i);
		if(glob(p.substr(i, j == string::npos ? j : j - i), s))
			return true;
		if(j == string::npos)
			return false;
		i = j + 1;
	}
}
const string names[] = {"ab", "ab.", "Q.1*"};
string alt(Gen& g, const string& alpha)
{
	string p;
	int n = g.i(1, 6);
	for(int i = 0; i < n; ++i)
	{
		if(g.chance(2, 5))
			p += string(1 + g.chance(1, 4), '*');
		else
			p += g.str(alpha, 1, 3);
	}
	return p;
}
string expand(Gen& g, const string& p, const string& alpha)
{
	string s;
	for(char ch : p)
	{
		if(ch == '*')
			s += g.str(alpha, 0, 4);
		else
			s += ch;
	}
	return s;
}
}

LAW(match, 300000, 6000000, "A pattern matches exactly the strings of its glob language; repeated use, copies, the call operator "
	"and the printed pattern all agree")
{
	string alpha = g.pick<string>({"ab", "ab.", "a", "QM.12"});
	string p = alt(g, alpha);
	string first = p;
	int na = g.chance(1, 3) ? g.i(1, 3) : 0;
	vector<string> alts = {p};
	for(int i = 0; i < na; ++i)
	{
		alts.push_back(alt(g, alpha));
		p += "|" + alts.back();
	}
	StringPattern sp(p);
	StringPattern copy(sp);
	std::ostringstream os;
	os << sp;
	StringPattern printed(os.str());
	c.eq(string(sp), p, "conversion of the pattern to a string");
	c.check(copy == sp && !(copy < sp), "copy of the pattern compares different");
	int n = g.i(1, 6);
	for(int k = 0; k < n; ++k)
	{
		string s;
		switch(g.raw(4))
		{
		case 0:
			s = g.str(alpha, 0, 8);
			break;
		case 1:
			s = expand(g, alts[g.raw(alts.size() - 1)], alpha);
			break;
		default:
			s = expand(g, alts[g.raw(alts.size() - 1)], alpha);
			for(int m = g.i(0, 2); m > 0 && !s.empty(); --m)
			{
				size_t at = g.raw(s.size() - 1);
				switch(g.raw(2))
				{
				case 0:
					s.erase(at, 1);
					break;
				case 1:
					s.insert(at, 1, alpha[g.raw(alpha.size() - 1)]);
					break;
				default:
					s += alpha[g.raw(alpha.size() - 1)];
				}
			}
		}
		bool want = alternatives(p, s);
		c.desc << "'" << p << "' ~ '" << s << "' ";
		c.label(want ? "match" : "no_match");
		c.label(na > 0, "alternatives");
		c.nontrivial(p.find('*') != string::npos && !s.empty());
		string t = " of string '" + s + "' with pattern '" + p + "'";
		c.eq(sp.Match(s), want, "Match" + t);
		c.eq(sp(s), want, "operator()" + t);
		c.eq(copy.Match(s), want, "Match (copied pattern)" + t);
		c.eq(printed.Match(s), want, "Match (printed pattern '" + os.str() + "')" + t);
	}
}
LAW(any_string, 60000, 1500000, "Matching arbitrary byte strings against arbitrary patterns neither crashes nor disagrees with the "
	"glob language")
{
	string s, p;
	int n = g.i(0, 8), m = g.i(1, 8);
	for(int i = 0; i < n; ++i)
		s += (char) g.raw(255);
	bool bar = false;
	for(int i = 0; i < m; ++i)
	{
		char ch;
		switch(g.raw(3))
		{
		case 0:
			ch = '*';
			break;
		case 1:
			ch = s.empty() ? 'x' : s[g.raw(s.size() - 1)];
			break;
		default:
			ch = (char) g.raw(255);
		}
		if(ch == '|')
		{
			if(p.empty() || bar || i + 1 == m)
				ch = 'x';
			else
				bar = true;
		}
		else
			bar = false;
		p += ch;
	}
	c.desc << "pattern and string of " << p.size() << "/" << s.size() << " bytes";
	c.nontrivial(p.find('*') != string::npos && !s.empty());
	bool want = alternatives(p, s);
	c.label(want ? "match" : "no_match");
	c.eq(StringPattern(p).Match(s), want, "Match of '" + s + "' with '" + p + "'");
}
