package main

func main() { cliMain() }
