from netfile import play
