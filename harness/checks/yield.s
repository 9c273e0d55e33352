//go:build yield

// Lets the package declare functions of the runtime.
