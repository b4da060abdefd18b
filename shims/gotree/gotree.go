// Package gotree is an offline stand-in for github.com/DiSiqueira/GoTree
package gotree

import "strings"

// GTStructure is a node of a tree
type GTStructure struct {
	Name  string
	Items []*GTStructure
}

// StringTree renders the tree
func StringTree(g *GTStructure) string {
	var sb strings.Builder
	sb.WriteString(g.Name)
	sb.WriteString("\n")
	stringItems(&sb, g.Items, "")
	return sb.String()
}

func stringItems(sb *strings.Builder, items []*GTStructure, pfx string) {
	for i, it := range items {
		var last = i == len(items)-1
		sb.WriteString(pfx)
		if last {
			sb.WriteString("└── ")
		} else {
			sb.WriteString("├── ")
		}
		sb.WriteString(it.Name)
		sb.WriteString("\n")
		if last {
			stringItems(sb, it.Items, pfx+"    ")
		} else {
			stringItems(sb, it.Items, pfx+"│   ")
		}
	}
}
