module verif/harness

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/liujiangwei/xxcache v0.0.0
	github.com/sirupsen/logrus v1.5.0
)

require (
	github.com/cornelk/hashmap v1.0.1 // indirect
	github.com/dchest/siphash v1.1.0 // indirect
	github.com/go-redis/redis/v7 v7.2.0 // indirect
	github.com/sean-public/fast-skiplist v0.0.0-20200308194023-d7f7945b944e // indirect
	golang.org/x/sys v0.0.0-20191010194322-b09406accb47 // indirect
)

replace github.com/liujiangwei/xxcache => /repo
