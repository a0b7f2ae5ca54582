package main

import (
	"github.com/abichinger/fastac/storage"
	"github.com/abichinger/fastac/storage/adapter"
)

func helper(args []string) {
	if h, ok := helpers[args[0]]; ok {
		h(args[1:])
	}
}

var helpers = map[string]func(args []string){}

func mustFile(path string) storage.Adapter { return adapter.NewFileAdapter(path) }
