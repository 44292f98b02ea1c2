h(){ printf "$1" | od -An -tx1 -v | tr -d ' \n'; }
