package main

// table is replaced by an overlay generated from the loaded harness package.
var table = map[string]func(){}
