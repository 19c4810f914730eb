// Package clog records what reached the modelled cryptography.
package clog

// AESKeys are the keys given to aes.NewCipher, in order.
var AESKeys [][]byte

// Argon2 are the cost parameters given to argon2.IDKey, in order: time,
// memory, threads, key length, salt length.
var Argon2 [][5]int

// Salts are the salts given to argon2.IDKey, Outs its results.
var Salts, Outs [][]byte

// Bcrypt counts the bcrypt computations for new hashes.
var Bcrypt int
