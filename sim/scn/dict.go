package scn

import "strings"

var wordForms = []string{
	"SET ? = 1", "SET ? = 0", "SET ? = 'x'", "SET a = 1, ? = 1", "SET ? = 10", "SELECT a FROM t SETTINGS ? = 1", "SELECT a FROM t SETTINGS a = 1, ? = 'x'",
	"SELECT ? FROM t", "SELECT ?, a FROM t", "SELECT a, ? AS b FROM t", "SELECT ?(a, b)", "SELECT ?()", "SELECT ?(1)(a)", "SELECT a AS ?", "SELECT a ?", "SELECT '?'", "SELECT 'a', '?'", "SELECT `?`", "SELECT \"?\"",
	"SELECT * FROM ?", "SELECT * FROM ?.t", "SELECT * FROM t.?", "SELECT * FROM ?()", "SELECT * FROM ?(a, 1)", "SELECT a FROM t AS ?", "SELECT ?.a FROM t", "SELECT t.? FROM t", "SELECT a FROM t FORMAT ?", "SELECT a FROM t WHERE ? = 1", "SELECT a FROM t ORDER BY ?", "SELECT a FROM t GROUP BY ?, a",
	"WITH ? AS (SELECT 1) SELECT * FROM ?", "SELECT CAST(a AS ?)", "SELECT a::?", "SELECT CAST(a, '?')", "SELECT ? + 1", "SELECT -?", "SELECT NOT ?", "SELECT a IN (?)", "SELECT [?]", "SELECT (?, 1)", "SELECT {?: 1}", "SELECT {?:Int32}", "SELECT count(*) OVER ? FROM t WINDOW ? AS (ORDER BY a)",
	"CREATE TABLE t (a ?) ENGINE = Memory", "CREATE TABLE t (a ?(3)) ENGINE = Memory", "CREATE TABLE t (a Array(?)) ENGINE = Memory", "CREATE TABLE t (? Int32) ENGINE = MergeTree ORDER BY ?", "CREATE TABLE ? (a Int32) ENGINE = ?", "CREATE TABLE t (a Int32 CODEC(?)) ENGINE = ?(a) ORDER BY a SETTINGS ? = 1", "CREATE TABLE t (a Int32 COMMENT '?') ENGINE = Memory COMMENT '?'", "CREATE TABLE t ON CLUSTER ? (a Int32) ENGINE = Memory", "CREATE DATABASE ? ENGINE = ?", "CREATE VIEW ? AS SELECT 1", "CREATE USER ? IDENTIFIED WITH ? BY '?'",
	"ALTER TABLE t ADD COLUMN ? Int32", "ALTER TABLE ? DROP COLUMN ?", "ALTER TABLE t ADD INDEX ? a TYPE ? GRANULARITY 1", "INSERT INTO ? VALUES (1)", "INSERT INTO t (?) VALUES ('?')", "INSERT INTO t FORMAT ?", "USE ?", "DROP TABLE ?", "TRUNCATE TABLE ?", "RENAME TABLE ? TO a", "OPTIMIZE TABLE ?", "EXPLAIN ? SELECT 1", "GRANT SELECT ON ?.* TO ?", "SHOW TABLES FROM ?", "DESCRIBE ?", "SYSTEM RELOAD DICTIONARY ?", "KILL QUERY WHERE ? = 1",
	"/* ? */ SELECT 1", "SELECT /*? */ 1", "SELECT /*+ ? */ 1", "SELECT 1 -- ?", "-- ?\nSELECT 1", "SELECT 1 /* ? */", "SELECT a /*?*/ FROM /*?*/ t", "# ?\nSELECT 1", "? SELECT 1", "SELECT 1 ?", "SELECT ?1", "SELECT a FROM t ?", "SELECT a ? b FROM t", "?", "SELECT a FROM t LIMIT 1 ? 2", "? t", "? TABLE t", "CREATE ? t", "ALTER TABLE t ? a",
}

// Dict adds documents with certain words and numbers of things in them.
func Dict(c *Corpus, seed uint64, words []string, nums []int, maxLen int, add func(kind, text string)) {
	r := NewRand(Mix(seed, 0xd1c7))
	all := c.All()
	if len(words) > 40 {
		words = words[:40]
	}
	for _, w := range words {
		name := true
		for i := 0; i < len(w); i++ {
			if !isLetter(w[i]) && w[i] != '_' && (w[i] < '0' || w[i] > '9') {
				name = false
			}
		}
		vary := func() string {
			switch k := r.Intn(12); {
			case !name || k < 7:
				return w
			case k == 7:
				return strings.ToUpper(w)
			case k == 8:
				return strings.ToLower(w)
			case k == 9:
				return "x" + w
			case k == 10:
				return w + "x"
			default:
				return strings.ToUpper(w[:1]) + strings.ToLower(w[1:])
			}
		}
		for _, f := range wordForms {
			add("dict", strings.ReplaceAll(f, "?", w))
			if r.P(30) {
				add("dict", strings.ReplaceAll(f, "?", vary()))
			}
		}
		for k := 0; k < 60; k++ {
			s := Pick(r, all)
			ts := Tokens(s)
			if len(ts) == 0 || len(s) > 1500 {
				continue
			}
			switch {
			case name && r.P(50):
				add("dict", Rename(r, s, []string{w, vary()}))
			case r.P(40): // in a string or quoted name
				for i, t := range ts {
					if len(t) > 1 && (t[0] == '\'' || t[0] == '`' || t[0] == '"') && r.P(60) {
						in := t[1 : len(t)-1]
						ts[i] = t[:1] + Pick(r, []string{w, in + w, w + in, w + w}) + t[:1]
					}
				}
				add("dict", strings.Join(ts, ""))
			case r.P(50):
				i := r.Intn(len(ts))
				ts[i] = Pick(r, []string{w, ts[i] + w, w + ts[i], ts[i] + " " + w, w + " " + ts[i]})
				add("dict", strings.Join(ts, ""))
			default:
				add("dict", Pick(r, []string{w + s, s + w, w + " " + s, s + " " + w, s + "\n" + w, s + ";" + w, s + ";" + w + s}))
			}
		}
	}
	if len(nums) > 12 {
		nums = nums[:12]
	}
	for _, n := range nums {
		if n < 2 || n > 40000 {
			continue
		}
		for _, k := range []int{n - 1, n, n + 1, n + 2, 2 * n} {
			put := func(t string) {
				if len(t) <= maxLen {
					add("dict", t)
				}
			}
			rep := strings.Repeat
			put("SELECT " + rep("a", k))
			put("SELECT '" + rep("a", k) + "'")
			put("SELECT `" + rep("a", k) + "`, b")
			put("SELECT " + rep("1", k))
			put("SELECT /*" + rep("x", k) + "*/ a")
			put("SELECT a" + rep(" ", k) + "FROM t")
			put("SELECT" + rep("\n", k) + "a")
			put(rep(" ", k) + "SELECT a (")
			put(rep("\n", k) + "SELECT a (")
			put("SELECT '" + rep("é", k) + "'")
			put("SELECT 1" + rep("; SELECT 1", k-1))
			put("SELECT 1" + rep(", 1", k-1))
			put("SELECT a" + rep(", b AS c", k-1) + " FROM t")
			put("SELECT f(a" + rep(", a", k-1) + ")")
			put("SELECT [1" + rep(", 1", k-1) + "]")
			put("SELECT a IN (1" + rep(", 1", k-1) + ")")
			put("SELECT a" + rep(" + a", k-1))
			put("SELECT a" + rep(" AND a", k-1))
			put("SELECT a.b" + rep(".c", k-1))
			put("SELECT " + rep("(", k) + "1" + rep(")", k))
			put("SELECT " + rep("f(", k) + "1" + rep(")", k))
			put("SELECT " + rep("[", k) + "1" + rep("]", k))
			put("SELECT " + rep("NOT ", k) + "a")
			put("SELECT CASE" + rep(" WHEN a THEN b", k) + " END")
			put("SELECT a FROM t" + rep(" JOIN u ON a = b", k))
			put("SELECT a FROM " + rep("(SELECT a FROM ", k) + "t" + rep(")", k))
			put("SELECT 1" + rep(" UNION ALL SELECT 1", k-1))
			put("SELECT a FROM t ORDER BY a" + rep(", a", k-1))
			put("SELECT a FROM t SETTINGS a = 1" + rep(", a = 1", k-1))
			put("SET a = 1" + rep(", a = 1", k-1))
			put("WITH a AS (SELECT 1)" + rep(", a AS (SELECT 1)", k-1) + " SELECT 1")
			put("CREATE TABLE t (a Int32" + rep(", a Int32", k-1) + ") ENGINE = Memory")
			put("ALTER TABLE t DROP COLUMN a" + rep(", DROP COLUMN a", k-1))
			put("INSERT INTO t VALUES (1)" + rep(", (1)", k-1))
			put("INSERT INTO t VALUES (1" + rep(", 1", k-1) + ")")
			put("CREATE TABLE t (a " + rep("Array(", k) + "Int32" + rep(")", k) + ") ENGINE = Memory")
			for j := 0; j < 4; j++ {
				put(NestDoc(r.Intn(len(NestKinds)), k))
			}
			for j := 0; j < 4; j++ {
				p := GrowPattern(r, Pick(r, all))
				put(p.Doc(k))
			}
		}
	}
}
