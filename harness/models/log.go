package models

import "log"

// ---- log: output is not observed

//sym:model (*log.Logger).Printf
func loggerPrintf(l *log.Logger, f string, v ...any) {
	_ = l.Flags()
}

//sym:model (*log.Logger).Println
func loggerPrintln(l *log.Logger, v ...any) {
	_ = l.Flags()
}

//sym:model (*log.Logger).Print
func loggerPrint(l *log.Logger, v ...any) {
	_ = l.Flags()
}

//sym:model log.Printf
func logPrintf(f string, v ...any) {}

//sym:model log.Println
func logPrintln(v ...any) {}

//sym:model log.Print
func logPrint(v ...any) {}
