// P13: TFS tables survive writing and reading.
#include "pbt.h"
#include "DataTable.h"
#include "DataTableTFS.h"
#include "MerlinException.h"
#include <sstream>
#include <fstream>
#include <memory>
using namespace pbt;
using std::string;
using std::vector;

pbt::Info pbt::info = {"P13",
	"Tables of 0-12 rows, 1-8 columns and 0-6 header fields of the three types, cell text with blanks, empty text, numbers "
	"of every magnitude; layouts with random white space, blank lines, CRLF, quoted or bare words and all type spellings; and "
	"texts damaged by dropping, duplicating, truncating and byte mutation. Non-trivial: at least two columns of different type "
	"and one row, or (damage) a text that a strict reference parser rejects.",
	"Names contain no white space or double quotes; text cells contain no line breaks or double quotes; numbers are zero "
	"or of magnitude 1e-300..1e300 (subnormals and the last digits before overflow are not exercised)."};

namespace
{
struct Cell
{
	double d = 0;
	int i = 0;
	string s;
};
struct Table
{
	vector<std::pair<string, char> > head, cols;
	vector<Cell> hv;
	vector<vector<Cell> > rows;
};
double num(Gen& g)
{
	switch(g.raw(5))
	{
	case 0:
		return g.i(-3, 3);
	case 1:
		return g.slogu(1e-300, 1e300);
	case 2:
		return g.i(-1000000, 1000000) / 1000.0;
	default:
		return g.sym(1000);
	}
}
Cell cell(Gen& g, char t)
{
	Cell x;
	if(t == 'd')
		x.d = num(g);
	else if(t == 'i')
		x.i = g.chance(1, 6) ? (g.b() ? INT32_MAX : INT32_MIN) : g.i(-100, 100000);
	else
		x.s = g.chance(1, 8) ? string() : g.str("abZ.1_ $@*%-'#;,&\\", 0, 8);
	return x;
}
const char* const pool[] = {"NAME", "KEYWORD", "S", "L", "K0L", "K1L", "APER_1", "x", "$", "@", "*", "%le", "col.1", "Long_Column_Name_42"};
Table gen(Gen& g)
{
	Table t;
	int nc = g.len(1, 8), nr = g.len(0, 12), nh = g.len(0, 6);
	std::set<string> used;
	for(int k = 0; k < nh; ++k)
	{
		string n = pool[g.raw(13)];
		if(!used.insert(n).second)
			continue;
		char ty = g.pick({'d', 'i', 's'});
		t.head.push_back({n, ty});
		t.hv.push_back(cell(g, ty));
	}
	used.clear();
	for(int k = 0; k < nc; ++k)
	{
		string n = pool[g.raw(13)];
		if(!used.insert(n).second)
			continue;
		t.cols.push_back({n, g.pick({'d', 'i', 's'})});
	}
	for(int r = 0; r < nr; ++r)
	{
		t.rows.push_back({});
		for(auto& col : t.cols)
			t.rows.back().push_back(cell(g, col.second));
	}
	return t;
}
DataTable build(const Table& t)
{
	DataTable d;
	for(size_t k = 0; k < t.head.size(); ++k)
	{
		d.HeaderAddColumn(t.head[k].first, t.head[k].second);
		if(t.head[k].second == 'd')
			d.HeaderSet(t.head[k].first, t.hv[k].d);
		else if(t.head[k].second == 'i')
			d.HeaderSet(t.head[k].first, t.hv[k].i);
		else
			d.HeaderSet(t.head[k].first, t.hv[k].s);
	}
	for(auto& col : t.cols)
		d.AddColumn(col.first, col.second);
	for(size_t r = 0; r < t.rows.size(); ++r)
	{
		d.AddRow();
		for(size_t k = 0; k < t.cols.size(); ++k)
		{
			if(t.cols[k].second == 'd')
				d.Set(t.cols[k].first, r, t.rows[r][k].d);
			else if(t.cols[k].second == 'i')
				d.Set(t.cols[k].first, r, t.rows[r][k].i);
			else
				d.Set(t.cols[k].first, r, t.rows[r][k].s);
		}
	}
	return d;
}
void compare(Ctx& c, const Table& t, DataTable& d, double rtol, const string& what)
{
	c.eq(d.HeaderNames().size(), t.head.size(), "number of header fields " + what);
	for(size_t k = 0; k < t.head.size(); ++k)
	{
		string n = t.head[k].first;
		c.eq(d.HeaderNames()[k], n, "header name " + what);
		c.eq(d.GetHeaderType(n), t.head[k].second, "header type " + what);
		if(t.head[k].second == 'd')
			c.near(d.HeaderGet_d(n), t.hv[k].d, rtol, 0, "header " + n + " " + what);
		else if(t.head[k].second == 'i')
			c.eq(d.HeaderGet_i(n), t.hv[k].i, "header " + n + " " + what);
		else
			c.eq(d.HeaderGet_s(n), t.hv[k].s, "header " + n + " " + what);
	}
	c.eq(d.ColumnNames().size(), t.cols.size(), "number of columns " + what);
	c.eq(d.Length(), t.rows.size(), "number of rows " + what);
	for(size_t k = 0; k < t.cols.size(); ++k)
	{
		string n = t.cols[k].first;
		c.eq(d.ColumnNames()[k], n, "column name " + what);
		c.eq(d.GetColumnType(n), t.cols[k].second, "column type " + what);
		for(size_t r = 0; r < t.rows.size(); ++r)
		{
			if(t.cols[k].second == 'd')
				c.near(d.Get_d(n, r), t.rows[r][k].d, rtol, 0, "cell " + n + " " + what);
			else if(t.cols[k].second == 'i')
				c.eq(d.Get_i(n, r), t.rows[r][k].i, "cell " + n + " " + what);
			else
				c.eq(d.Get_s(n, r), t.rows[r][k].s, "cell " + n + " " + what);
		}
	}
}
bool mixed(const Table& t)
{
	std::set<char> k;
	for(auto& col : t.cols)
		k.insert(col.second);
	return k.size() > 1 && !t.rows.empty();
}
string show(const Table& t)
{
	std::ostringstream o;
	o << t.head.size() << " header fields, " << t.rows.size() << " rows, columns";
	for(auto& col : t.cols)
		o << " " << col.first << ":" << col.second;
	return o.str();
}
string blanks(Gen& g, bool some)
{
	return g.str(" \t", some ? 1 : 0, 3);
}
// the table laid out by an independent writer
string layout(Gen& g, const Table& t)
{
	std::ostringstream o;
	o.precision(17);
	string eol = g.chance(1, 4) ? "\r\n" : "\n";
	auto end = [&]() {
			o << blanks(g, false) << eol;
			while(g.chance(1, 8))
				o << blanks(g, false) << eol;
		};
	auto val = [&](char ty, const Cell& x) {
			bool quote = g.chance(1, 3);
			if(ty == 'd')
			{
				quote = false;
				int f = g.i(0, 2);
				if(f == 1)
					o << std::scientific;
				if(g.chance(1, 5) && x.d >= 0)
					o << '+';
				o << x.d;
				o.unsetf(std::ios::floatfield);
			}
			else if(ty == 'i')
				o << x.i;
			else
			{
				if(x.s.empty() || x.s.find_first_of(" \t") != string::npos)
					quote = true;
				o << (quote ? "\"" : "") << x.s << (quote ? "\"" : "");
			}
		};
	auto type = [&](char ty) -> string {
			if(ty == 'd')
				return g.pick<string>({"%le", "%e"});
			if(ty == 'i')
				return "%d";
			return g.pick<string>({"%s", "%2s", "%15s"});
		};
	for(size_t k = 0; k < t.head.size(); ++k)
	{
		o << blanks(g, false) << "@" << blanks(g, true) << t.head[k].first << blanks(g, true) << type(t.head[k].second)
		  << blanks(g, true);
		val(t.head[k].second, t.hv[k]);
		end();
	}
	o << blanks(g, false) << "*";
	for(auto& col : t.cols)
		o << blanks(g, true) << col.first;
	o << blanks(g, false) << eol;
	o << blanks(g, false) << "$";
	for(auto& col : t.cols)
		o << blanks(g, true) << type(col.second);
	end();
	for(auto& r : t.rows)
	{
		for(size_t k = 0; k < t.cols.size(); ++k)
		{
			o << blanks(g, true);
			val(t.cols[k].second, r[k]);
		}
		end();
	}
	return o.str();
}
// all single-cell text rows that would be blank when unquoted are quoted by both writers, so no row disappears
// outcome of reading a text
string outcome(const string& s, std::unique_ptr<DataTable>& d)
{
	std::istringstream in(s);
	try
	{
		DataTableReaderTFS rd(&in);
		d.reset(new DataTable(rd.Read()));
		return "table";
	}
	catch(BadFormatException&)
	{
		return "BadFormat";
	}
	catch(std::exception&)
	{
		return "other exception";
	}
}
// Structural reference: is the text acceptable at all?  (field counts, markers, type words)
string strict(const string& s)
{
	std::istringstream in(s);
	string line;
	auto words = [](const string& l) {
			vector<string> w;
			string cur;
			bool q = false, any = false;
			for(char ch : l)
			{
				if(ch == '"')
				{
					q = !q;
					any = true;
				}
				else if(!q && strchr(" \t\f\v\r", ch) && ch)
				{
					if(any)
						w.push_back(cur);
					cur.clear();
					any = false;
				}
				else
				{
					cur += ch;
					any = true;
				}
			}
			if(any)
				w.push_back(cur);
			return w;
		};
	auto known = [](const string& t) {
			return t == "%le" || t == "%e" || t == "%d" || t == "%s" || (t.size() > 2 && t.back() == 's');
		};
	bool star = false;
	size_t n = 0;
	while(getline(in, line))
	{
		auto w = words(line);
		if(w.empty())
			continue;
		if(w[0] == "@")
		{
			if(w.size() != 4)
				return "header field count";
			if(!known(w[2]))
				return "header type";
			continue;
		}
		if(w[0] != "*")
			return "neither @ nor *";
		n = w.size() - 1;
		star = true;
		break;
	}
	if(!star)
		return "no column names";
	if(!getline(in, line))
		return "no column types";
	auto w = words(line);
	if(w.empty() || w[0] != "$")
		return "no column types";
	if(w.size() - 1 != n)
		return "type count";
	for(size_t k = 1; k < w.size(); ++k)
		if(!known(w[k]))
			return "type";
	while(getline(in, line))
	{
		w = words(line);
		if(!w.empty() && w.size() != n)
			return "cell count";
	}
	return "";
}
}

LAW(roundtrip, 40000, 800000, "A table written by the TFS writer (to a stream or a file) and read back has the same header, columns, "
	"types and cells, numbers to the 10 printed digits; writing the result again gives the same text")
{
	Table t = gen(g);
	c.desc << show(t);
	c.nontrivial(mixed(t));
	DataTable d = build(t);
	bool file = g.chance(1, 10);
	c.label(file ? "file" : "stream");
	for(auto& r : t.rows)
		for(size_t k = 0; k < t.cols.size(); ++k)
			c.label(t.cols[k].second == 's' && r[k].s.empty(), "empty_text");
	string text;
	if(file)
	{
		{
			DataTableWriterTFS w("t.tfs");
			w.Write(d);
		}
		DataTableReaderTFS rd("t.tfs");
		DataTable back = rd.Read();
		compare(c, t, back, 6e-10, "after a round trip through a file");
	}
	else
	{
		std::ostringstream o;
		DataTableWriterTFS w(&o);
		w.Write(d);
		text = o.str();
		std::istringstream in(text);
		DataTableReaderTFS rd(&in);
		DataTable back = rd.Read();
		compare(c, t, back, 6e-10, "after a round trip");
		std::ostringstream o2;
		DataTableWriterTFS w2(&o2);
		w2.Write(back);
		c.eq(o2.str(), text, "text written from the re-read table");
	}
	// the writer leaves the table alone
	compare(c, t, d, 0, "of the table that was written");
}

LAW(layouts, 40000, 800000, "A table laid out with any white space, blank lines, line ends, quoting, type spelling and number format "
	"reads as the table described")
{
	Table t = gen(g);
	c.desc << show(t);
	c.nontrivial(mixed(t));
	string s = layout(g, t);
	c.desc << "\n" << s;
	std::istringstream in(s);
	DataTableReaderTFS rd(&in);
	DataTable d = rd.Read();
	compare(c, t, d, 1e-15, "read from a laid-out text");
}

LAW(damage, 60000, 1500000, "A text whose header lines, types or number of values do not form a table is rejected with the format "
	"exception; any other damaged text is read or rejected with an exception, without a crash")
{
	Table t = gen(g);
	string s = layout(g, t);
	vector<string> lines;
	{
		std::istringstream in(s);
		string l;
		while(getline(in, l))
			lines.push_back(l);
	}
	int n = g.i(1, 3);
	for(int k = 0; k < n; ++k)
	{
		size_t i = lines.empty() ? 0 : g.raw(lines.size() - 1);
		if(lines.empty())
			break;
		switch(g.raw(8))
		{
		case 0:
			lines.erase(lines.begin() + i);
			break;
		case 1:
			lines.insert(lines.begin() + i, lines[g.raw(lines.size() - 1)]);
			break;
		case 2:
			lines[i] = lines[i].substr(0, g.raw(lines[i].size()));
			break;
		case 3:
			lines[i] += g.pick<string>({" 1", " x", " \"a b\"", "\"", " $", "  "});
			break;
		case 4:
			if(!lines[i].empty())
				lines[i][g.raw(lines[i].size() - 1)] = (char) g.raw(255);
			break;
		case 5:
			if(!lines[i].empty())
				lines[i].erase(g.raw(lines[i].size() - 1), 1 + g.raw(2));
			break;
		case 6:
			lines.resize(i);
			break;
		case 7:
			std::swap(lines[i], lines[g.raw(lines.size() - 1)]);
			break;
		default:
			lines[i] = g.pick<string>({"", "@", "*", "$", "@ A", "@ A %d", "@ A %d x", "* A B", "$ %d", "$ %q", "# comment"});
		}
	}
	s.clear();
	for(auto& l : lines)
		s += l + "\n";
	c.desc << s;
	string bad = strict(s);
	c.label(bad.empty() ? "acceptable" : bad);
	c.nontrivial(!bad.empty());
	std::unique_ptr<DataTable> d;
	string got = outcome(s, d);
	c.label("outcome_" + got);
	if(!bad.empty())
	{
		// duplicate names and bad numbers earlier in the text may be reported first
		c.check(got == "BadFormat" || got == "other exception", "text with a bad " + bad + " was read as a table");
		if(bad == "no column names" || bad == "neither @ nor *")
			c.label("no_table_line");
	}
	else if(got == "table")
	{
		// what was read has the shape of the text
		size_t cols = d->ColumnNames().size();
		for(auto row : *d)
			for(size_t k = 0; k < cols; ++k)
				row.GetAsStr(d->ColumnNames()[k]);
	}
	else
		c.check(got != "BadFormat", "acceptable text rejected with the format exception");
}
