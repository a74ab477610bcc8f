from train import play
