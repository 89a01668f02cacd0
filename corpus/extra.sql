# one statement per line; \n stands for a newline; lines starting with # are comments
SELECT 1
SELECT a, b AS c FROM d.t WHERE a = 1 AND b != 'x' OR NOT c
SELECT 1 FROM t WHERE interval = 1 AND INTERVAL 1 DAY > interval
SELECT 'a\nb' AS x, `q i` AS "z z", 0x1F, 1e-3, .5 FROM "a"."b"
SELECT a ? b : c, x -> x + 1, (a, b), [1, 2][1], t.1, a::String, -a, - 1, NOT a IS NULL
SELECT
USE
garbage
SELECT 1 FROM t `abc
SELECT 'abc
SELECT 1 /* x
SELECT ((((
CHECK TABLE t
CHECK TABLE t PARTITION 'x'
# every operator and literal form
SELECT a <> b, a != b, a == b, a = b, a <= b, a >= b, a < b, a > b, a || b, a % b, a / b, a * b, a - b, a + b
SELECT a <> 1 FROM t WHERE b <> 'x' AND c != 'y' OR d == 'z'
SELECT a FROM t WHERE b <> c
SELECT a FROM t WHERE b != c
SELECT a FROM t WHERE b == c
SELECT a FROM t WHERE b || c = 'd'
SELECT a FROM t WHERE b % 2 = 0 AND c / 2 > 1
SELECT a FROM t WHERE b REGEXP '^x' AND c ILIKE '%y' AND d LIKE 'z_' AND e NOT LIKE 'w' AND f NOT ILIKE 'v'
SELECT a FROM t WHERE b NOT IN (1, 2) AND c GLOBAL IN (SELECT 1) AND d GLOBAL NOT IN (3) AND e IN [4, 5]
SELECT a FROM t WHERE b BETWEEN 1 AND 2 AND c NOT BETWEEN 3 AND 4 AND d IS NULL AND e IS NOT NULL
SELECT 0x1f, 0XAB, 1.5, .5, 5., 1e10, 1E-10, 1.5e+3, 'it''s', 'it\'s', '\\', '', NULL, true, false, inf, nan
SELECT {a:String}, {b:Array(Int32)}, ?, @x, @@y
SELECT -1, +1, - a, -(a + b), NOT a, NOT NOT a, NOT (a AND b)
SELECT a.b.c, a.b.*, t.*, *, a.1, a.1.2, a[1][2], a[1].b, (a, b).1, f(x).1, [1, 2, 3], [], (), (1,), {'a': 1}, map('k', 1)
SELECT a::Int32, a::Array(String), 'x'::FixedString(3), CAST(a AS String), CAST(a, 'String'), CAST('x' AS Decimal(10, 2))
SELECT a -> b, x -> x * 2, (x, y) -> x + y, arrayMap(x -> x + 1, arr), arrayFilter((x, y) -> x > y, a, b)
SELECT a ? b : c, a ? b ? c : d : e
SELECT CASE WHEN a THEN 1 END, CASE a WHEN 1 THEN 'x' WHEN 2 THEN 'y' ELSE 'z' END, CASE WHEN a = 1 THEN CASE WHEN b THEN 1 ELSE 2 END END
SELECT EXTRACT(DAY FROM d), SUBSTRING(a FROM 1 FOR 2), SUBSTRING(a, 1, 2), TRIM(BOTH 'x' FROM a), TRIM(LEADING 'x' FROM a), TRIM(TRAILING 'x' FROM a), TRIM(a), POSITION('a' IN b), DATE_ADD(DAY, 1, d), toDate('2020-01-01')
SELECT INTERVAL 1 DAY, INTERVAL '1' HOUR, INTERVAL a MINUTE, INTERVAL 1 + 2 SECOND, INTERVAL (a) WEEK, INTERVAL '1 day', INTERVAL 1 MONTH + INTERVAL 2 QUARTER - INTERVAL 3 YEAR, interval(1), interval, a - interval
SELECT DATE '2020-01-01', TIMESTAMP '2020-01-01 00:00:00'
SELECT count(DISTINCT a), count(*), sum(a) FILTER (WHERE b), quantile(0.5)(a), quantiles(0.5, 0.9)(a, b), topK(3)(x), f()
SELECT a AS `select`, b AS "from", c AS where, d value, e `x y`, f "p q"
SELECT DISTINCT a, b FROM t
SELECT DISTINCT ON (a, b) c FROM t
SELECT TOP 5 a FROM t
SELECT a FROM t LIMIT 1, 2
SELECT a FROM t LIMIT 10 OFFSET 5
SELECT a FROM t LIMIT 3 BY a, b LIMIT 10
SELECT a FROM t LIMIT 1 OFFSET 2 BY a
SELECT a FROM t ORDER BY a ASC NULLS FIRST, b DESC NULLS LAST WITH FILL FROM 1 TO 10 STEP 2 INTERPOLATE (c AS c + 1)
SELECT a FROM t ORDER BY a COLLATE 'en', b WITH FILL STEP INTERVAL 1 DAY
SELECT a FROM t GROUP BY a WITH ROLLUP WITH TOTALS HAVING count() > 1
SELECT a FROM t GROUP BY CUBE(a, b)
SELECT a FROM t GROUP BY ROLLUP(a, b)
SELECT a FROM t GROUP BY GROUPING SETS ((a), (b), ())
SELECT a FROM t GROUP BY ALL
SELECT a FROM t FINAL SAMPLE 0.1 OFFSET 0.5 PREWHERE b = 1 WHERE c = 2
SELECT a FROM t SAMPLE 1/10
SELECT a FROM t AS x (p, q)
SELECT a FROM numbers(10) AS n, remote('h', db.t) r, (SELECT 1) s
SELECT a FROM t ARRAY JOIN b AS c, d
SELECT a FROM t LEFT ARRAY JOIN b
SELECT a FROM t INNER JOIN u USING (a, b) LEFT OUTER JOIN v ON t.a = v.a RIGHT ANTI JOIN w USING a FULL OUTER JOIN x ON 1 CROSS JOIN y
SELECT a FROM t ANY LEFT JOIN u ON a = b ALL INNER JOIN v ON c = d ASOF JOIN w ON e >= f SEMI LEFT JOIN x USING (g) GLOBAL ANY LEFT JOIN y USING h
SELECT a FROM t LEFT SEMI JOIN u USING a LEFT ANTI JOIN v USING b LEFT ANY JOIN w USING c RIGHT ANY JOIN x USING d RIGHT OUTER JOIN y USING e RIGHT SEMI JOIN z USING f FULL ALL JOIN q USING g
SELECT a FROM t LEFT ASOF JOIN u ON a = b INNER ANY JOIN v USING c ANTI RIGHT JOIN w USING d SEMI RIGHT OUTER JOIN x USING e PASTE JOIN y
SELECT a FROM t, u, v WHERE t.a = u.b
SELECT a FROM (t JOIN u ON a = b) JOIN v ON c = d
SELECT sum(a) OVER (PARTITION BY b ORDER BY c ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW), row_number() OVER w, rank() OVER () FROM t WINDOW w AS (PARTITION BY x ORDER BY y), v AS (ORDER BY z)
SELECT sum(a) OVER (ORDER BY b ROWS 5 PRECEDING), sum(a) OVER (ORDER BY b RANGE BETWEEN 1 PRECEDING AND 2 FOLLOWING), sum(a) OVER (ORDER BY b ROWS UNBOUNDED PRECEDING), sum(a) OVER (ORDER BY b ROWS CURRENT ROW), sum(a) OVER (ORDER BY b ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING)
SELECT sum(a) OVER (ORDER BY b RANGE BETWEEN INTERVAL 1 DAY PRECEDING AND INTERVAL 2 HOUR FOLLOWING)
SELECT sum(a) OVER (w ORDER BY b) FROM t WINDOW w AS (PARTITION BY c)
SELECT sum(a) OVER order FROM t QUALIFY sum(a) OVER order > 1
SELECT COLUMNS('^a') APPLY(sum), * EXCEPT (a, b), * REPLACE (a + 1 AS a), t.* EXCEPT a, COLUMNS(a, b), * APPLY toString
SELECT 1 UNION ALL SELECT 2 UNION DISTINCT SELECT 3 EXCEPT SELECT 4 INTERSECT SELECT 5
SELECT 1 UNION ALL (SELECT 2 UNION ALL SELECT 3)
(SELECT 1) UNION ALL (SELECT 2)
(SELECT 1 UNION ALL SELECT 2) EXCEPT SELECT 3
WITH a AS (SELECT 1), 2 AS b, (SELECT 3) AS c SELECT * FROM a
WITH RECURSIVE r AS (SELECT 1 AS n UNION ALL SELECT n + 1 FROM r WHERE n < 5) SELECT * FROM r
WITH x AS (SELECT 1) INSERT INTO t SELECT * FROM x
SELECT a FROM t FORMAT JSONEachRow
SELECT a FROM t INTO OUTFILE 'x.csv' FORMAT CSV SETTINGS a = 1, b = 'x', c = 1.5, d = true
SELECT a FROM t SETTINGS max_threads = 1, join_use_nulls = 0
EXPLAIN SYNTAX SELECT 1
EXPLAIN PIPELINE SELECT 1
EXPLAIN ESTIMATE SELECT 1
EXPLAIN AST SELECT 1
EXPLAIN PLAN SELECT 1
EXPLAIN SELECT 1
EXPLAIN PLAN indexes = 1, actions = 1 SELECT a FROM t
# grants
GRANT SELECT, INSERT, ALTER, CREATE, DROP ON *.* TO u
GRANT SELECT(a, b), INSERT(c) ON db.t TO u, v WITH GRANT OPTION
GRANT ALTER UPDATE ON db.* TO u
GRANT ALTER DELETE, ALTER USER, ALTER ROLE, ALTER QUOTA, ALTER INDEX ON *.* TO u
GRANT ALTER ADD COLUMN, ALTER DROP COLUMN, ALTER MODIFY COLUMN, ALTER CLEAR COLUMN, ALTER COMMENT COLUMN, ALTER RENAME COLUMN, ALTER MATERIALIZED COLUMN ON db.t TO u
GRANT ALTER ADD INDEX, ALTER DROP INDEX, ALTER CLEAR INDEX, ALTER MATERIALIZED TTL, ALTER MODIFY TTL ON db.t TO u
GRANT ALTER ORDER BY, ALTER SAMPLE BY, ALTER SETTINGS, ALTER VIEW MODIFY, ALTER VIEW REFRESH, ALTER MOVE PARTITION, ALTER FREEZE PARTITION ON db.t TO u
GRANT ALTER ADD ON db.t TO u
GRANT ALTER VIEW ON db.t TO u
GRANT ALTER MOVE ON db.t TO u
GRANT CREATE DATABASE, CREATE DICTIONARY, CREATE TABLE, CREATE FUNCTION, CREATE VIEW, CREATE USER, CREATE ROLE, CREATE QUOTA, CREATE TEMPORARY TABLE, CREATE ROWS POLICY ON *.* TO u
GRANT CREATE TEMPORARY VIEW ON *.* TO u
GRANT DROP DATABASE, DROP DICTIONARY, DROP USER, DROP ROLE, DROP QUOTA, DROP TABLE, DROP FUNCTION, DROP VIEW ON *.* TO u
GRANT SHOW DATABASES, SHOW DICTIONARIES, SHOW TABLES, SHOW COLUMNS ON *.* TO u
GRANT SYSTEM SHUTDOWN, SYSTEM MERGES, SYSTEM FETCHES, SYSTEM SENDS, SYSTEM MOVES, SYSTEM CLUSTER ON *.* TO u
GRANT SYSTEM DROP CACHE, SYSTEM DROP MARK CACHE, SYSTEM DROP DNS CACHE, SYSTEM DROP UNCOMPRESSED CACHE ON *.* TO u
GRANT SYSTEM RELOAD DICTIONARY, SYSTEM RELOAD FUNCTION, SYSTEM RELOAD FUNCTIONS, SYSTEM RELOAD CONFIG ON *.* TO u
GRANT SYSTEM FLUSH LOGS, SYSTEM FLUSH DISTRIBUTED, SYSTEM TTL MERGES, SYSTEM SYNC REPLICA, SYSTEM RESTART REPLICA, SYSTEM REPLICATION QUEUES ON *.* TO u
GRANT SYSTEM DROP x ON *.* TO u
GRANT SYSTEM FLUSH ON *.* TO u
GRANT ALL ON *.* TO u WITH ADMIN OPTION
GRANT KILL QUERY, OPTIMIZE, TRUNCATE, ROLE ADMIN, ADMIN OPTION, dictGet ON *.* TO u
GRANT ON CLUSTER c SELECT ON db.t TO u, CURRENT_USER WITH REPLACE OPTION
GRANT r1, r2 TO u EXCEPT v
GRANT NONE ON *.* TO u
REVOKE SELECT ON *.* FROM u
# system
SYSTEM RELOAD DICTIONARIES
SYSTEM RELOAD DICTIONARY db.d
SYSTEM RELOAD DICTIONARY ON CLUSTER c d
SYSTEM RELOAD EMBEDDED DICTIONARIES
SYSTEM SYNC REPLICA db.t
SYSTEM START DISTRIBUTED SENDS
SYSTEM STOP DISTRIBUTED FETCHES
SYSTEM STOP DISTRIBUTED MERGES
SYSTEM START DISTRIBUTED TTL MERGES t
SYSTEM STOP DISTRIBUTED SENDS db.t
SYSTEM STOP REPLICATED SENDS
SYSTEM START REPLICATED SENDS
SYSTEM STOP x
SYSTEM DROP DNS CACHE
SYSTEM DROP MARK CACHE
SYSTEM DROP UNCOMPRESSED CACHE
SYSTEM DROP FILESYSTEM CACHE
SYSTEM DROP QUERY CACHE
SYSTEM DROP COMPILED EXPRESSION CACHE
SYSTEM DROP x
SYSTEM FLUSH DISTRIBUTED db.t
SYSTEM FLUSH LOGS
OPTIMIZE TABLE db.t ON CLUSTER c PARTITION 'x' FINAL DEDUPLICATE BY a, b EXCEPT c
OPTIMIZE TABLE t DEDUPLICATE
OPTIMIZE TABLE t PARTITION ID 'x' FINAL
CREATE ROLE IF NOT EXISTS r1, r2@'host' ON CLUSTER c SETTINGS a = 1 MIN 0 MAX 2 READONLY, PROFILE 'p', b WRITABLE
CREATE ROLE OR REPLACE r SETTINGS NONE
ALTER ROLE IF EXISTS r1 RENAME TO r2, r3 ON CLUSTER c SETTINGS a = 1
ALTER ROLE r SETTINGS PROFILE 'default'
DROP ROLE IF EXISTS r1, r2 ON CLUSTER c
DROP USER IF EXISTS u1, u2@'%' FROM s
CREATE USER u IDENTIFIED WITH sha256_password BY 'x' HOST IP '::1' DEFAULT ROLE r DEFAULT DATABASE d GRANTEES ANY EXCEPT v SETTINGS a = 1
CREATE USER IF NOT EXISTS u NOT IDENTIFIED HOST LOCAL
CREATE USER OR REPLACE u1, u2 ON CLUSTER c IDENTIFIED BY 'x' HOST NAME 'h', REGEXP 'r', LIKE 'l', ANY, NONE DEFAULT ROLE ALL EXCEPT r
SET a = 1, b = 'x', c = true
SET ROLE r
USE db
KILL QUERY WHERE a = 1
KILL MUTATION WHERE a = 1 SYNC
# dictionaries
CREATE DICTIONARY IF NOT EXISTS db.d ON CLUSTER c (a UInt64 DEFAULT 0 EXPRESSION b + 1 HIERARCHICAL INJECTIVE IS_OBJECT_ID, b String DEFAULT '' ) PRIMARY KEY a, b SOURCE(CLICKHOUSE(HOST 'h' PORT 9000 USER u TABLE f() HEADERS(HEADER(NAME 'k' VALUE 1.5)))) LIFETIME(MIN 0 MAX 100) LAYOUT(COMPLEX_KEY_HASHED(SIZE 10)) RANGE(MIN s MAX e) SETTINGS(a = 1, b = 'x') COMMENT 'c'
CREATE DICTIONARY d (a Int32) PRIMARY KEY a SOURCE(NULL()) LIFETIME(MAX 5 MIN 1) LAYOUT(FLAT()) RANGE(MAX e MIN s)
CREATE OR REPLACE DICTIONARY d UUID 'x' (a Int32) PRIMARY KEY a SOURCE(FILE(PATH '/x' FORMAT 'CSV')) LIFETIME(300) LAYOUT(RANGE_HASHED())
CREATE DICTIONARY d (a Int32) PRIMARY KEY a SOURCE(NULL()) LIFETIME(1) LIFETIME(2) LAYOUT(FLAT())
CREATE DICTIONARY d (a Int32) PRIMARY KEY a LIFETIME(1) LAYOUT(FLAT())
CREATE DICTIONARY d (a Int32) PRIMARY KEY a SOURCE(X(a )) LAYOUT(FLAT()) RANGE(s)
# tables
CREATE TABLE IF NOT EXISTS db.t UUID 'x' ON CLUSTER c (a Int32 NOT NULL DEFAULT 1 COMMENT 'x' CODEC(Delta, ZSTD(1)) TTL d + INTERVAL 1 DAY, b Nullable(String) MATERIALIZED lower(c), c String ALIAS d, e String EPHEMERAL, f LowCardinality(String) NULL, INDEX i a TYPE minmax GRANULARITY 1, INDEX j (a, b) TYPE bloom_filter(0.1) GRANULARITY 2, CONSTRAINT k CHECK a > 0, PROJECTION p (SELECT a, sum(b) GROUP BY a ORDER BY a)) ENGINE = ReplicatedMergeTree('/x', '{r}') PARTITION BY toYYYYMM(d) PRIMARY KEY a ORDER BY (a, b) SAMPLE BY a TTL d + INTERVAL 1 DAY DELETE WHERE a = 1, e + INTERVAL 2 DAY TO DISK 'x', f TO VOLUME 'y', g GROUP BY a SET b = max(b), h RECOMPRESS CODEC(ZSTD(3)) SETTINGS index_granularity = 8192, x = 'y' COMMENT 'z'
CREATE TEMPORARY TABLE t (a Int32, b Enum8('x' = 1, 'y' = -2), c Tuple(x Int32, y String), d Nested(p Int32, q Array(String)), e Map(String, Int32), f DateTime64(3, 'UTC'), g Decimal(10, 2), h AggregateFunction(sum, Int32), i SimpleAggregateFunction(max, Int32)) ENGINE = Memory
CREATE TABLE t (j JSON(max_dynamic_types = 10, max_dynamic_paths = 20, a.b Int32, SKIP c.d, SKIP REGEXP '^x'), k Variant(Int32, String), l Dynamic(max_types = 5), m Object('json')) ENGINE = Memory
CREATE TABLE t AS db.u ENGINE = Null
CREATE TABLE t CLONE AS u
CREATE TABLE t AS SELECT 1
CREATE TABLE t ENGINE = Memory AS SELECT a FROM b
CREATE TABLE t (a Int32) ENGINE = MergeTree ORDER BY tuple() AS SELECT 1 AS a
CREATE TABLE t AS remote('h', db.t)
CREATE OR REPLACE TABLE t (`a b` Int32, "c d" String) ENGINE = Log
CREATE TABLE t (a Int32, CONSTRAINT c ASSUME a > 0) ENGINE = Memory
CREATE TABLE t (a Int32, PRIMARY KEY (a)) ENGINE = MergeTree
CREATE DATABASE IF NOT EXISTS d ON CLUSTER c ENGINE = Atomic COMMENT 'x'
CREATE DATABASE d ENGINE = Replicated('/x', '{s}', '{r}')
CREATE FUNCTION IF NOT EXISTS f ON CLUSTER c AS (x, y) -> x + y
CREATE NAMED COLLECTION IF NOT EXISTS n ON CLUSTER c AS a = 1 OVERRIDABLE, b = 'x' NOT OVERRIDABLE, c = 1.5
DROP FUNCTION IF EXISTS f ON CLUSTER c
CREATE VIEW IF NOT EXISTS v ON CLUSTER c (a Int32) AS SELECT a FROM t COMMENT 'x'
CREATE OR REPLACE VIEW v UUID 'x' AS SELECT 1
CREATE LIVE VIEW IF NOT EXISTS v WITH TIMEOUT 10 TO d (a Int32) AS SELECT 1
CREATE LIVE VIEW v WITH TIMEOUT AS SELECT 1
CREATE MATERIALIZED VIEW IF NOT EXISTS v ON CLUSTER c REFRESH EVERY 1 HOUR OFFSET 5 MINUTE RANDOMIZE FOR 10 SECOND DEPENDS ON a, b.c SETTINGS x = 1 APPEND TO d.t (a Int32, b String) EMPTY DEFINER = u SQL SECURITY DEFINER AS SELECT 1 COMMENT 'x'
CREATE MATERIALIZED VIEW v REFRESH AFTER 1 DAY (a Int32) ENGINE = MergeTree ORDER BY a POPULATE COMMENT 'c' AS SELECT 1 AS a
CREATE MATERIALIZED VIEW v ENGINE = Memory SQL SECURITY NONE AS SELECT 1
CREATE MATERIALIZED VIEW v TO t POPULATE AS SELECT 1
CREATE MATERIALIZED VIEW v (a Int32) AS SELECT 1
CREATE MATERIALIZED VIEW v ENGINE = Memory SQL SECURITY x AS SELECT 1
CREATE MATERIALIZED VIEW v AS SELECT 1
# alter
ALTER TABLE db.t ON CLUSTER c ADD COLUMN IF NOT EXISTS a Int32 DEFAULT 1 AFTER b, ADD COLUMN c String FIRST, DROP COLUMN IF EXISTS d, MODIFY COLUMN e Int64 REMOVE DEFAULT, RENAME COLUMN IF EXISTS f TO g, CLEAR COLUMN h IN PARTITION 'x', COMMENT COLUMN i 'y'
ALTER TABLE t ADD INDEX IF NOT EXISTS i a TYPE minmax GRANULARITY 1 AFTER j, DROP INDEX IF EXISTS k, CLEAR INDEX l IN PARTITION 'x', MATERIALIZE INDEX m IN PARTITION 'y'
ALTER TABLE t ADD PROJECTION IF NOT EXISTS p (SELECT a ORDER BY a) AFTER q, DROP PROJECTION IF EXISTS r, CLEAR PROJECTION s IN PARTITION 'x', MATERIALIZE PROJECTION u IN PARTITION 'y'
ALTER TABLE t ADD PROJECTION p (WITH 1 AS x SELECT a, x GROUP BY a)
ALTER TABLE t DETACH PARTITION 'x', ATTACH PARTITION 'y' FROM u, DROP PARTITION ID 'z', FREEZE PARTITION 'w', REPLACE PARTITION 'v' FROM s
ALTER TABLE t DROP PART 'x', DROP DETACHED PARTITION 'y', FREEZE, ATTACH PARTITION ALL, MOVE PARTITION 'x' TO TABLE u
ALTER TABLE t MODIFY TTL a + INTERVAL 1 DAY, REMOVE TTL, MODIFY SETTING x = 1, y = 'z', RESET SETTING x, y
ALTER TABLE t MODIFY QUERY SELECT 1
ALTER TABLE t MODIFY COLUMN a REMOVE TTL, MODIFY COLUMN b COMMENT 'x', MODIFY COLUMN c CODEC(ZSTD), MODIFY COLUMN d TTL e + INTERVAL 1 DAY
ALTER TABLE t MODIFY ORDER BY (a, b), MODIFY SAMPLE BY c, MODIFY COMMENT 'x'
ALTER TABLE t DELETE WHERE a = 1, UPDATE b = 2, c = 3 WHERE d = 4
ALTER TABLE t UPDATE a = 1 IN PARTITION 'x' WHERE b = 2
ALTER TABLE t ADD CONSTRAINT c CHECK a > 0, DROP CONSTRAINT d
DELETE FROM db.t ON CLUSTER c WHERE a = 1
TRUNCATE TABLE IF EXISTS db.t ON CLUSTER c
TRUNCATE TEMPORARY TABLE t
DROP TABLE IF EXISTS db.t ON CLUSTER c SYNC
DROP TEMPORARY TABLE t NO DELAY
DROP DATABASE IF EXISTS d ON CLUSTER c
DROP VIEW IF EXISTS v
DROP DICTIONARY IF EXISTS d
DETACH TABLE IF EXISTS t PERMANENTLY
ATTACH TABLE t
RENAME TABLE a TO b, c.d TO e.f ON CLUSTER c
RENAME DATABASE a TO b
RENAME DICTIONARY a TO b
EXCHANGE TABLES a AND b
# insert, show, describe
INSERT INTO db.t (a, b, c.d) VALUES (1, 'x', [1, 2]), (DEFAULT, NULL, {'a': 1})
INSERT INTO TABLE t FORMAT JSONEachRow
INSERT INTO FUNCTION remote('h', d.t) SELECT * FROM u
INSERT INTO t SETTINGS a = 1 VALUES (1)
INSERT INTO t (* EXCEPT (a)) SELECT 1
INSERT INTO t WITH x AS (SELECT 1) SELECT * FROM x
INSERT INTO t (a) FORMAT Values (1), (2)
INSERT INTO t VALUES (1) FORMAT Values
SET a = 1 FORMAT Null
SHOW TABLES FORMAT JSON
INSERT INTO t SELECT 1 UNION ALL SELECT 2
SHOW DATABASES
SHOW DATABASES NOT LIKE '%x%' LIMIT 5
SHOW DATABASES ILIKE 'x' INTO OUTFILE 'f' FORMAT CSV
SHOW TABLES
SHOW TABLES FROM d LIKE 'x'
SHOW TABLES IN d WHERE name = 'x' LIMIT 1
SHOW CREATE TABLE db.t
SHOW CREATE DATABASE d
SHOW CREATE VIEW v
SHOW CREATE DICTIONARY d
SHOW COLUMNS FROM t
SHOW GRANTS
DESCRIBE TABLE db.t
DESC t
DESCRIBE (SELECT 1)
EXISTS TABLE t
CHECK TABLE db.t PARTITION (1, 2)
BACKUP TABLE t TO Disk('a', 'b')
# layouts
-- only a comment
/* only a comment */
SELECT\n1,\n2\nFROM\nt -- end\nWHERE a = 1 /* in\nthe middle */ AND b = 2
SELECT 1;\n\nSELECT 2;;\n;SELECT 3
SELECT\t1,\t\t2
SELECT 'multi\nline\nstring', `multi\nline`
SELECT é, 'é', `é`, "日本", '日本語' FROM café
SELECT # comment\n1
SELECT 5. + 1
SELECT 0x1f + 0xAB
GRANT ON CLUSTER c ALTER ADD COLUMN ON t TO u
CREATE TABLE IF NOT EXISTS db.t UUID 'x' ON CLUSTER c (a Int32 NOT NULL DEFAULT 1 COMMENT 'x' CODEC(Delta, ZSTD(1)) TTL d + INTERVAL 1 DAY) ENGINE = MergeTree ORDER BY a TTL d + INTERVAL 1 DAY DELETE WHERE a = 1, e + INTERVAL 2 DAY TO DISK 'x', f TO VOLUME 'y' SETTINGS index_granularity = 8192
CREATE TABLE t (b Nullable(String) MATERIALIZED lower(c), c String ALIAS d, f LowCardinality(String) NULL, INDEX i a TYPE minmax GRANULARITY 1, INDEX j (a, b) TYPE bloom_filter(0.1) GRANULARITY 2, CONSTRAINT k CHECK a > 0) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (a Int32, PROJECTION p (SELECT a, sum(b) GROUP BY a ORDER BY a)) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (a Int32) ENGINE = MergeTree ORDER BY a TTL g GROUP BY a SET b = max(b)
CREATE TABLE t (a Int32) ENGINE = MergeTree ORDER BY a TTL h RECOMPRESS CODEC(ZSTD(3))
CREATE TABLE t (j JSON(max_dynamic_types = 10, max_dynamic_paths = 20, a.b Int32, SKIP c.d, SKIP REGEXP '^x'), k Variant(Int32, String)) ENGINE = Memory
CREATE TABLE t (j JSON(max_dynamic_paths = 20)) ENGINE = Memory
CREATE TABLE t (j JSON(x.y = 20)) ENGINE = Memory
SELECT a FROM t ORDER BY a ASC, b DESC WITH FILL FROM 1 TO 10 STEP 2 INTERPOLATE (c AS c + 1)
SELECT a FROM t ORDER BY a WITH FILL STALENESS 1
SELECT a FROM t LEFT ASOF JOIN u ON a = b
SELECT a FROM t INNER ANY JOIN v USING c
SELECT a FROM t SEMI RIGHT OUTER JOIN x USING e
SELECT a FROM t LEFT ARRAY JOIN x AS y
SELECT 1 UNION ALL SELECT 2 UNION DISTINCT SELECT 3
SELECT 1 EXCEPT SELECT 4
SELECT 1 EXCEPT (SELECT 4)
SELECT * APPLY(sum)
SELECT * EXCEPT (a, b) REPLACE (c + 1 AS c) APPLY(sum)
CREATE MATERIALIZED VIEW IF NOT EXISTS v ON CLUSTER c REFRESH EVERY 1 HOUR OFFSET 5 MINUTE RANDOMIZE FOR 10 SECOND DEPENDS ON a, b.c SETTINGS x = 1 APPEND TO d.t (a Int32, b String) EMPTY DEFINER = u SQL SECURITY DEFINER COMMENT 'x' AS SELECT 1
CREATE MATERIALIZED VIEW v ENGINE = Memory AS SELECT 1 FROM t WHERE a = 1 COMMENT 'x'
CREATE VIEW IF NOT EXISTS v ON CLUSTER c (a Int32) AS SELECT a FROM t
ALTER TABLE t DROP PARTITION 'x'
ALTER TABLE t DROP PARTITION ID 'x'
ALTER TABLE t DROP DETACHED PARTITION 'y'
ALTER TABLE t DETACH PARTITION 'x' SETTINGS a = 1
ALTER TABLE t ATTACH PARTITION 'y' FROM u
ALTER TABLE t REPLACE PARTITION 'v' FROM s
ALTER TABLE t FREEZE
ALTER TABLE t FREEZE PARTITION 'w'
ALTER TABLE t REMOVE TTL
ALTER TABLE t RESET SETTING x, y
ALTER TABLE t MODIFY SETTING x = 1
ALTER TABLE t MODIFY TTL a + INTERVAL 1 DAY
ALTER TABLE t MODIFY COLUMN a REMOVE TTL
ALTER TABLE t MODIFY COLUMN IF EXISTS a String DEFAULT 'x'
ALTER TABLE t MODIFY ORDER BY (a, b)
CREATE USER IF NOT EXISTS u ON CLUSTER c IDENTIFIED WITH plaintext_password BY 'x'
CREATE USER u IDENTIFIED WITH ldap SERVER 's'
CREATE USER u IDENTIFIED WITH kerberos REALM 'r'
CREATE USER u IDENTIFIED WITH sha256_hash BY 'h' SALT 's'
CREATE USER u HOST ANY
CREATE USER u HOST NONE
CREATE USER u HOST REGEXP '.*'
CREATE USER u DEFAULT ROLE ALL EXCEPT r
CREATE USER u DEFAULT ROLE NONE
CREATE USER u GRANTEES NONE
CREATE USER u SETTINGS a = 1 MIN 0 MAX 2 READONLY, PROFILE 'p'
INSERT INTO db.t (a, b, c.d) VALUES (1, 'x', [1, 2]), (2, NULL, map('a', 1))
INSERT INTO t VALUES (-1, 1.5, now(), (SELECT 1))
EXPLAIN SYNTAX SELECT a FROM t WHERE b = 1
