from npy import play
