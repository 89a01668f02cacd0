module verifsim

go 1.24

require github.com/AfterShip/clickhouse-sql-parser v0.0.0

replace github.com/AfterShip/clickhouse-sql-parser => /repo
