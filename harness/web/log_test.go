package web

import (
	"html/template"
	"log"
)

func (p *panicLog) logger() *log.Logger { return log.New(p, "", 0) }

type templateURL = template.URL
