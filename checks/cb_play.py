from cb import play
