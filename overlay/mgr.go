// A front end made of nothing but the manager package: commands in, results out.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"os"

	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/encoding/gzip"
)

type command struct {
	Op      string
	ID      string
	Seed    []byte
	Queries [][]byte
}

type result struct {
	Out     string
	Msg     string
	Key     string
	Answers [][]byte
}

func main() {
	config, err := utils.LoadConfig(os.Getenv("VPIR_CONFIG"))
	if err != nil {
		log.Fatal(err)
	}
	m := manager.NewManager(*config, []grpc.CallOption{grpc.UseCompressor(gzip.Name)})
	actor, err := m.Connect()
	if err != nil {
		log.Fatal(err)
	}
	fmt.Println("VERIF-READY")
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c command
		if err := json.Unmarshal(line, &c); err != nil {
			log.Fatal(err)
		}
		r := run(&actor, &c)
		b, _ := json.Marshal(r)
		fmt.Printf("\nVERIF-RESULT %s\n", b)
	}
}

func run(actor *manager.Actor, c *command) (r *result) {
	defer func() {
		if p := recover(); p != nil {
			r = &result{Out: "panic", Msg: fmt.Sprint(p)}
		}
	}()
	infos, err := actor.GetDBInfos()
	if err != nil {
		return &result{Out: "error", Msg: err.Error()}
	}
	switch c.Op {
	case "key":
		var seed utils.PRGKey
		copy(seed[:], c.Seed)
		k, err := actor.GetKey(c.ID, infos[0], client.NewPIR(utils.NewPRG(&seed), &infos[0]))
		if err != nil {
			return &result{Out: "error", Msg: err.Error(), Key: k}
		}
		return &result{Out: "ok", Key: k}
	case "run":
		a, err := actor.RunQueries(c.Queries)
		if err != nil {
			return &result{Out: "error", Msg: err.Error(), Answers: a}
		}
		return &result{Out: "ok", Answers: a}
	}
	return &result{Out: "ok"}
}
