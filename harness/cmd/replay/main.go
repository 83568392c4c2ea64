// Command replay runs harnesses natively on the inputs the solver found.
package main

import "fvh/sym"

func main() { sym.Main(registry) }
