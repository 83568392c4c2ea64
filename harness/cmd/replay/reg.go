package main

// The engine replaces this file by the list of all harnesses when it builds the command.
var registry = map[string]func(){}
