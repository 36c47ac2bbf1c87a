package main

import "go/types"

type typesType = types.Type
