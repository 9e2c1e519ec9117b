package kit

import "strings"

// kinds a command may answer with, besides an error
var kinds = map[string]string{
	"set": "+", "mset": "+", "hmset": "+", "lset": "+", "ping": "+", "type": "+",
	"get": "$", "hget": "$", "lindex": "$", "zscore": "$", "hincrbyfloat": "$", "zincr": "$:",
	"mget": "*", "hmget": "*", "hgetall": "*", "hkeys": "*", "hvals": "*", "lrange": "*", "keys": "*", "smembers": "*", "sdiff": "*", "sinter": "*", "sunion": "*", "zrange": "*", "zrevrange": "*", "zrangebyscore": "*", "zpopmin": "*", "zpopmax": "*",
	"lpop": "$*", "rpop": "$*", "spop": "$*", "zrank": ":$", "zadd": ":$", "command": "*$+",
}

// commands that answer nil for what is not there
var nilKinds = map[string]bool{}

func init() {
	for _, c := range strings.Fields("get hget hgetall lpop rpop lindex zrange zrevrange zrangebyscore zrank zscore zadd command") {
		nilKinds[c] = true
	}
}

// KindOK tells whether the reply to the command is of the kind it is defined
// to give.
func KindOK(c []string, r Reply) bool {
	if r.IsErr() {
		return true
	}
	cmd := asciiLower(c[0])
	k := kinds[cmd]
	if k == "" {
		k = ":"
	}
	if r.Nil {
		return nilKinds[cmd] || (cmd == "spop" && len(c) == 2)
	}
	if cmd == "spop" && len(c) > 2 {
		k = "*"
	}
	for _, e := range r.Arr {
		if e.Kind != '$' && cmd != "command" || e.Nil && cmd != "mget" && cmd != "hmget" && cmd != "command" {
			return false
		}
	}
	return strings.IndexByte(k, r.Kind) >= 0
}
