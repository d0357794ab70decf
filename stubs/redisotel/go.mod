module github.com/redis/go-redis/extra/redisotel/v9

go 1.23

require github.com/redis/go-redis/v9 v9.21.0
