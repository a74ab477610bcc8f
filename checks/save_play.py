from savefault import play
